SPECIFICATION Spec
CONSTANTS Reader = "guarded"
Emit = TRUE
Depth = 7
MaxTampered = 2
CHECK_DEADLOCK FALSE
