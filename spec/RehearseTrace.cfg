SPECIFICATION Spec
CONSTANTS
  SpecInit <- RehearseInit
  SpecStep <- RehearseStep
VIEW View
INVARIANT Report
CHECK_DEADLOCK FALSE
