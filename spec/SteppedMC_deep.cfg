SPECIFICATION MCSpec
CONSTANTS Depth = 8 Gen = FALSE
INVARIANT NoErr
INVARIANT Unseen
INVARIANT Kill
INVARIANT Ahead
INVARIANT Steppy
PROPERTY Frame
VIEW MCView
CHECK_DEADLOCK FALSE
