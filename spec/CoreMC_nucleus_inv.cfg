SPECIFICATION MCSpec
CONSTANTS Which = "nucleus" K = 1 H = 1 Gen = FALSE
INVARIANT Inv
PROPERTY BreakOk
VIEW MCView
CHECK_DEADLOCK FALSE
