SPECIFICATION MCSpec
CONSTANTS Depth = 8 Gen = FALSE Kinds = "cart"
INVARIANT Inv

VIEW MCView
CHECK_DEADLOCK FALSE
