SPECIFICATION MCSpec
CONSTANTS Depth = 4 Gen = FALSE
INVARIANT Complete
INVARIANT Only
INVARIANT Marks
INVARIANT Timely
INVARIANT Locs
VIEW MCView
CHECK_DEADLOCK FALSE
