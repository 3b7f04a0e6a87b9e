SPECIFICATION Spec
CONSTANTS
  SpecInit <- UnitsInit
  SpecStep <- UnitsStep
VIEW View
INVARIANT Report
CHECK_DEADLOCK FALSE
