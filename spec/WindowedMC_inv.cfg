SPECIFICATION MCSpec
CONSTANTS H = 4 N = 3 Gen = FALSE
INVARIANT Err
INVARIANT Conserve
VIEW MCView
CHECK_DEADLOCK FALSE
