SPECIFICATION MCSpec
CONSTANTS Depth = 6 Gen = FALSE
INVARIANT Inv
PROPERTY Others
VIEW MCView
CHECK_DEADLOCK FALSE
