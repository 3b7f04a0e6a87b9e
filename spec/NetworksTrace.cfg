SPECIFICATION Spec
CONSTANTS
  SpecInit <- NetworksInit
  SpecStep <- NetworksStep
VIEW View
INVARIANT Report
CHECK_DEADLOCK FALSE
