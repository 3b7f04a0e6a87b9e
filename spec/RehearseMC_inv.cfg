SPECIFICATION MCSpec
CONSTANTS Depth = 4 Gen = FALSE
INVARIANT NoErr
INVARIANT Predicts
INVARIANT Clocks
INVARIANT Twice
PROPERTY OnlyOne
VIEW MCView
CHECK_DEADLOCK FALSE
