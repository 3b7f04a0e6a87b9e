SPECIFICATION Spec
CONSTANTS
  SpecInit <- MotionInit
  SpecStep <- MotionStep
VIEW View
INVARIANT Report
CHECK_DEADLOCK FALSE
