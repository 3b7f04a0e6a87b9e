SPECIFICATION Spec
CONSTANTS
  SpecInit <- CommsInit
  SpecStep <- CommsStep
VIEW View
INVARIANT Report
CHECK_DEADLOCK FALSE
