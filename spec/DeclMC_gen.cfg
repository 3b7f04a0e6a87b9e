SPECIFICATION MCSpec
CONSTANTS Depth = 2 Gen = TRUE
INVARIANT Inv
INVARIANT PrintProg
VIEW MCView
CHECK_DEADLOCK FALSE
