SPECIFICATION MCSpec
CONSTANTS Depth = 4 Gen = FALSE
INVARIANT Inv
INVARIANT PrintProg
VIEW MCView
CHECK_DEADLOCK FALSE
