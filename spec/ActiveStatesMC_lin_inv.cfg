SPECIFICATION MCSpec
CONSTANTS Depth = 6 Gen = FALSE Kinds = "lin"
INVARIANT Inv

VIEW MCView
CHECK_DEADLOCK FALSE
