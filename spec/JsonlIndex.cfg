SPECIFICATION Spec
CONSTANTS Paths = {"a", "b"}
Objects = {1}
MaxLen = 3
Naming = "injective"
Emit = FALSE
Depth = 0
INVARIANT EveryLine
CHECK_DEADLOCK FALSE
