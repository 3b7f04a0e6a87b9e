SPECIFICATION Spec
CONSTANTS
  SpecInit <- WindowedInit
  SpecStep <- WindowedStep
VIEW View
INVARIANT Report
CHECK_DEADLOCK FALSE
