SPECIFICATION Spec
CONSTANTS
  SpecInit <- ReproInit
  SpecStep <- ReproStep
VIEW View
INVARIANT Report
CHECK_DEADLOCK FALSE
