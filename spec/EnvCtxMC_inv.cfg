SPECIFICATION MCSpec
CONSTANTS Depth = 4 Gen = FALSE
INVARIANT Inv
PROPERTY Others
VIEW MCView
CHECK_DEADLOCK FALSE
