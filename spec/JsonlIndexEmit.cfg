SPECIFICATION Spec
CONSTANTS Paths = {"a", "b", "c"}
Objects = {1, 2, 3}
MaxLen = 3
Naming = "injective"
Emit = TRUE
Depth = 16
CHECK_DEADLOCK FALSE
