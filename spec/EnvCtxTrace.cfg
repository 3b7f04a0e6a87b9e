SPECIFICATION Spec
CONSTANTS
  SpecInit <- EnvCtxInit
  SpecStep <- EnvCtxStep
VIEW View
INVARIANT Report
CHECK_DEADLOCK FALSE
