SPECIFICATION Spec
CONSTANTS
  SpecInit <- ActiveStatesInit
  SpecStep <- ActiveStatesStep
VIEW View
INVARIANT Report
CHECK_DEADLOCK FALSE
