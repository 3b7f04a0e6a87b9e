SPECIFICATION Spec
CONSTANTS
  SpecInit <- SteppedInit
  SpecStep <- SteppedStep
VIEW View
INVARIANT Report
CHECK_DEADLOCK FALSE
