SPECIFICATION MCSpec
CONSTANTS Which = "cont" K = 2 H = 3 Gen = TRUE
INVARIANT Inv
INVARIANT PrintProg
VIEW MCView
CHECK_DEADLOCK FALSE
