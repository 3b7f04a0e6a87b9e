SPECIFICATION MCSpec
CONSTANTS Depth = 6 Gen = FALSE
INVARIANT Inv
PROPERTY Frame
VIEW MCView
CHECK_DEADLOCK FALSE
