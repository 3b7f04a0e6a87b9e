SPECIFICATION MCSpec
CONSTANTS Kind = "filter" Cap = 2 Depth = 4 Gen = TRUE
INVARIANT Inv
INVARIANT PrintProg
VIEW MCView
CHECK_DEADLOCK FALSE
