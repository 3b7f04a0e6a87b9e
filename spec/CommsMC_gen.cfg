SPECIFICATION MCSpec
CONSTANTS Depth = 4 Gen = TRUE
INVARIANT NoErr
INVARIANT PrintProg
VIEW MCView
CHECK_DEADLOCK FALSE
