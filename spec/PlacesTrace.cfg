SPECIFICATION Spec
CONSTANTS
  SpecInit <- PlacesInit
  SpecStep <- PlacesStep
VIEW View
INVARIANT Report
CHECK_DEADLOCK FALSE
