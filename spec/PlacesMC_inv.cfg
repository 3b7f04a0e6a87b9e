SPECIFICATION MCSpec
CONSTANTS Third = TRUE
INVARIANT Metric
INVARIANT Equality
CHECK_DEADLOCK FALSE
