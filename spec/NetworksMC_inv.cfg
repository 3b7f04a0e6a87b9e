SPECIFICATION MCSpec
CONSTANTS Depth = 7 Gen = FALSE
INVARIANT Inv
PROPERTY Frame
VIEW MCView
CHECK_DEADLOCK FALSE
