SPECIFICATION MCSpec
CONSTANTS Depth = 4 Gen = TRUE Kinds = "cart"
INVARIANT Inv
INVARIANT PrintProg
VIEW MCView
CHECK_DEADLOCK FALSE
