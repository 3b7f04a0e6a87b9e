SPECIFICATION Spec
CONSTANTS
  SpecInit <- GlobeInit
  SpecStep <- GlobeStep
VIEW View
INVARIANT Report
CHECK_DEADLOCK FALSE
