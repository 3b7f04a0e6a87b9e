SPECIFICATION MCSpec
CONSTANTS Depth = 4 Gen = TRUE Kinds = "lin"
INVARIANT Inv
INVARIANT PrintProg
VIEW MCView
CHECK_DEADLOCK FALSE
