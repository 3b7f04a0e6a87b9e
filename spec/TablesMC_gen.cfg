SPECIFICATION MCSpec
CONSTANTS Depth = 4 Gen = TRUE
INVARIANT PrintProg
VIEW MCView
CHECK_DEADLOCK FALSE
