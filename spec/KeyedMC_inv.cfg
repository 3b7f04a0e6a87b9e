SPECIFICATION MCSpec
CONSTANTS Depth = 4 Gen = FALSE
INVARIANT Inv
PROPERTY Frame
VIEW MCView
CHECK_DEADLOCK FALSE
