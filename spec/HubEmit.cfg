SPECIFICATION Spec
CONSTANTS Cleanup = "always"
Guard = TRUE
Versions = 100
Emit = TRUE
Depth = 8

CHECK_DEADLOCK FALSE
