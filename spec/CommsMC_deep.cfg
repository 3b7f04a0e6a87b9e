SPECIFICATION MCSpec
CONSTANTS Depth = 8 Gen = FALSE
INVARIANT NoErr
INVARIANT Fates
INVARIANT Direct
INVARIANT Paths
INVARIANT Calm
PROPERTY Final
PROPERTY Frame
VIEW MCView
CHECK_DEADLOCK FALSE
