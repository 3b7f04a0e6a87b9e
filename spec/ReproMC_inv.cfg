SPECIFICATION MCSpec
CONSTANTS Depth = 3 Gen = FALSE Runs = 3
INVARIANT NoErr
INVARIANT Same
INVARIANT Fresh
PROPERTY Blind
CHECK_DEADLOCK FALSE
