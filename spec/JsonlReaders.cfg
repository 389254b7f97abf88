SPECIFICATION Spec
CONSTANTS Threads = {1, 2, 3}
Lines = {1, 2, 3}
ReadsPer = 1
SharedCursor = FALSE
Emit = FALSE
INVARIANT RightLine
CHECK_DEADLOCK FALSE
