SPECIFICATION MCSpec
CONSTANTS Depth = 8 Gen = FALSE Kinds = "lin"
INVARIANT Inv

VIEW MCView
CHECK_DEADLOCK FALSE
