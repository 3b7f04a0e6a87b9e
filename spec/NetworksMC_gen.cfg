SPECIFICATION MCSpec
CONSTANTS Depth = 4 Gen = TRUE
INVARIANT Inv
INVARIANT PrintProg
VIEW MCView
CHECK_DEADLOCK FALSE
