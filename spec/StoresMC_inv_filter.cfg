SPECIFICATION MCSpec
CONSTANTS Kind = "filter" Cap = 2 Depth = 6 Gen = FALSE
INVARIANT Inv
VIEW MCView
CHECK_DEADLOCK FALSE
