SPECIFICATION MCSpec
CONSTANTS Depth = 7 Gen = FALSE
INVARIANT Inv
INVARIANT PrintProg
VIEW MCView
CHECK_DEADLOCK FALSE
