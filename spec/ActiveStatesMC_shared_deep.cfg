SPECIFICATION MCSpec
CONSTANTS Depth = 7 Gen = FALSE Kinds = "shared"
INVARIANT Inv

VIEW MCView
CHECK_DEADLOCK FALSE
