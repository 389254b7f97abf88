SPECIFICATION Spec
CONSTANTS Cleanup = "always"
Guard = TRUE
Versions = 4
Emit = FALSE
Depth = 0
INVARIANTS NoTemporary LocalSpared
PROPERTIES OnlyStaged ForeignKept
CHECK_DEADLOCK FALSE
