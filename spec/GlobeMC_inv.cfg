SPECIFICATION MCSpec
CONSTANTS Depth = 1 Gen = FALSE Unit = 30
 Starts <- SomeStarts
INVARIANT Inv
VIEW MCView
CHECK_DEADLOCK FALSE
