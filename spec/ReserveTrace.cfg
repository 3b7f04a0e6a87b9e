SPECIFICATION Spec
CONSTANTS
  SpecInit <- RvInit
  SpecStep <- RvStep
VIEW View
INVARIANT Report
CHECK_DEADLOCK FALSE
