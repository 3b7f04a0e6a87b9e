SPECIFICATION MCSpec
CONSTANTS Depth = 5 Gen = FALSE Kinds = "shared"
INVARIANT Inv

VIEW MCView
CHECK_DEADLOCK FALSE
