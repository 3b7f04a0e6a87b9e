SPECIFICATION MCSpec
CONSTANTS Depth = 3 Gen = TRUE
INVARIANT Inv
INVARIANT PrintProg
VIEW MCView
CHECK_DEADLOCK FALSE
