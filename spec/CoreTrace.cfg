SPECIFICATION Spec
CONSTANTS
  SpecInit <- CoreInit
  SpecStep <- CoreStep
VIEW View
INVARIANT Report
CHECK_DEADLOCK FALSE
