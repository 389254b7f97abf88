SPECIFICATION Spec
CONSTANTS Names = {1, 2, 3}
MaxTime = 1000
Rule = "pop"
Emit = TRUE
Depth = 18
CHECK_DEADLOCK FALSE
