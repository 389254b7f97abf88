SPECIFICATION Spec
CONSTANTS Threads = {1, 2}
Lines = {1, 2}
ReadsPer = 1
SharedCursor = FALSE
Emit = TRUE
CHECK_DEADLOCK FALSE
