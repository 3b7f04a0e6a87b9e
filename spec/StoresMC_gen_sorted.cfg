SPECIFICATION MCSpec
CONSTANTS Kind = "sorted" Cap = 2 Depth = 4 Gen = TRUE
INVARIANT Inv
INVARIANT PrintProg
VIEW MCView
CHECK_DEADLOCK FALSE
