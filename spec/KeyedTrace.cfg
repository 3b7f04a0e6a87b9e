SPECIFICATION Spec
CONSTANTS
  SpecInit <- KeyedInit
  SpecStep <- KeyedStep
VIEW View
INVARIANT Report
CHECK_DEADLOCK FALSE
