SPECIFICATION Spec
CONSTANTS
  SpecInit <- TablesInit
  SpecStep <- TablesStep
VIEW View
INVARIANT Report
CHECK_DEADLOCK FALSE
