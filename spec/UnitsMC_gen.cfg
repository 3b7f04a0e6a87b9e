SPECIFICATION MCSpec
CONSTANTS Gen = TRUE
INVARIANT Inv
INVARIANT PrintProg
CHECK_DEADLOCK FALSE
