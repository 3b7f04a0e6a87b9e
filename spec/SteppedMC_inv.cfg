SPECIFICATION MCSpec
CONSTANTS Depth = 6 Gen = FALSE
INVARIANT NoErr
INVARIANT Unseen
INVARIANT Kill
INVARIANT Ahead
INVARIANT Steppy
PROPERTY Frame
VIEW MCView
CHECK_DEADLOCK FALSE
