SPECIFICATION MCSpec
CONSTANTS Depth = 5 Gen = FALSE
INVARIANT Inv
PROPERTY Frame
VIEW MCView
CHECK_DEADLOCK FALSE
