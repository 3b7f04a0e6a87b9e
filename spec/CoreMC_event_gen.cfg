SPECIFICATION MCSpec
CONSTANTS Which = "event" K = 2 H = 3 Gen = TRUE
INVARIANT Inv
INVARIANT PrintProg
VIEW MCView
CHECK_DEADLOCK FALSE
