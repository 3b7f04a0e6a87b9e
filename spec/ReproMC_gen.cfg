SPECIFICATION MCSpec
CONSTANTS Depth = 4 Gen = TRUE Runs = 0
INVARIANT NoErr
INVARIANT PrintProg
CHECK_DEADLOCK FALSE
