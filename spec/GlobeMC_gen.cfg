SPECIFICATION MCSpec
CONSTANTS Depth = 2 Gen = TRUE Unit = 30
 Starts <- SomeStarts
INVARIANT PrintProg
VIEW MCView
CHECK_DEADLOCK FALSE
