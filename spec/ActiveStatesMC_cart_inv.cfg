SPECIFICATION MCSpec
CONSTANTS Depth = 6 Gen = FALSE Kinds = "cart"
INVARIANT Inv

VIEW MCView
CHECK_DEADLOCK FALSE
