SPECIFICATION MCSpec
CONSTANTS Depth = 4 Gen = TRUE Kinds = "mix"
INVARIANT Inv
INVARIANT PrintProg
VIEW MCView
CHECK_DEADLOCK FALSE
