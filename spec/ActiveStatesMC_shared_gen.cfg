SPECIFICATION MCSpec
CONSTANTS Depth = 4 Gen = TRUE Kinds = "shared"
INVARIANT Inv
INVARIANT PrintProg
VIEW MCView
CHECK_DEADLOCK FALSE
