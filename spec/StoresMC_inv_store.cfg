SPECIFICATION MCSpec
CONSTANTS Kind = "store" Cap = 2 Depth = 6 Gen = FALSE
INVARIANT Inv
VIEW MCView
CHECK_DEADLOCK FALSE
