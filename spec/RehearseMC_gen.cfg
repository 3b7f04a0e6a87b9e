SPECIFICATION MCSpec
CONSTANTS Depth = 3 Gen = TRUE
INVARIANT NoErr
INVARIANT PrintProg
VIEW MCView
CHECK_DEADLOCK FALSE
