SPECIFICATION MCSpec
CONSTANTS Depth = 7 Gen = FALSE Kinds = "mix"
INVARIANT Inv

VIEW MCView
CHECK_DEADLOCK FALSE
