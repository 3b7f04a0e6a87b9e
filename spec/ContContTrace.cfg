SPECIFICATION Spec
CONSTANTS
  SpecInit <- CcInit
  SpecStep <- CcStep
VIEW View
INVARIANT Report
CHECK_DEADLOCK FALSE
