SPECIFICATION Spec
CONSTANTS Names = {1, 2}
MaxTime = 6
Rule = "overwrite"
Emit = FALSE
Depth = 0
INVARIANTS Exact
PROPERTIES Final
CHECK_DEADLOCK FALSE
