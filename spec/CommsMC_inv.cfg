SPECIFICATION MCSpec
CONSTANTS Depth = 6 Gen = FALSE
INVARIANT NoErr
INVARIANT Fates
INVARIANT Direct
INVARIANT Paths
INVARIANT Calm
PROPERTY Final
PROPERTY Frame
VIEW MCView
CHECK_DEADLOCK FALSE
