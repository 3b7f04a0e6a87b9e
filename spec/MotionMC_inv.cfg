SPECIFICATION MCSpec
CONSTANTS Depth = 5 Gen = FALSE
INVARIANT NoErr
INVARIANT Told
INVARIANT Unseen
INVARIANT Order
INVARIANT Edges
INVARIANT Kill
VIEW MCView
CHECK_DEADLOCK FALSE
