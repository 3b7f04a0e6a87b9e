SPECIFICATION MCSpec
CONSTANTS Which = "cont" K = 2 H = 1 Gen = FALSE
INVARIANT Inv
PROPERTY BreakOk
VIEW MCView
CHECK_DEADLOCK FALSE
