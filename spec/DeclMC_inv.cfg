SPECIFICATION MCSpec
CONSTANTS Depth = 3 Gen = FALSE
INVARIANT Inv
PROPERTY Frame
VIEW MCView
CHECK_DEADLOCK FALSE
