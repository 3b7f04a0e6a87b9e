SPECIFICATION Spec
CONSTANTS
  SpecInit <- Start
  SpecStep <- StepStores
VIEW View
INVARIANT Report
CHECK_DEADLOCK FALSE
