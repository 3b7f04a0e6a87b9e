SPECIFICATION MCSpec
CONSTANTS H = 3 N = 3 Gen = TRUE
INVARIANT Err
INVARIANT PrintProg
VIEW MCView
CHECK_DEADLOCK FALSE
