SPECIFICATION Spec
CONSTANTS Names = {1, 2, 3}
MaxTime = 7
Rule = "pop"
Emit = FALSE
Depth = 0
INVARIANTS Exact Accumulating
PROPERTIES Final
CHECK_DEADLOCK FALSE
