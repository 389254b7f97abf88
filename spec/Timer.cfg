SPECIFICATION Spec
CONSTANTS Names = {1, 2}
MaxTime = 6
Rule = "pop"
Emit = FALSE
Depth = 0
INVARIANTS Exact Accumulating
PROPERTIES Final
CHECK_DEADLOCK FALSE
