SPECIFICATION MCSpec
CONSTANTS Third = FALSE
INVARIANT Metric
INVARIANT Equality
INVARIANT PrintProg
 CHECK_DEADLOCK FALSE
