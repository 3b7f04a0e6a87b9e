SPECIFICATION MCSpec
CONSTANTS Depth = 5 Gen = FALSE Kinds = "mix"
INVARIANT Inv

VIEW MCView
CHECK_DEADLOCK FALSE
