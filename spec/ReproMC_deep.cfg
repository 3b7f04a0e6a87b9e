SPECIFICATION MCSpec
CONSTANTS Depth = 5 Gen = FALSE Runs = 4
INVARIANT NoErr
INVARIANT Same
INVARIANT Fresh
PROPERTY Blind
CHECK_DEADLOCK FALSE
