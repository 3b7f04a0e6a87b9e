SPECIFICATION Spec
CONSTANTS
  SpecInit <- DeclInit
  SpecStep <- DeclStep
VIEW View
INVARIANT Report
CHECK_DEADLOCK FALSE
