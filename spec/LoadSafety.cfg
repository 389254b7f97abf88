SPECIFICATION Spec
CONSTANTS Reader = "guarded"
Emit = FALSE
Depth = 0
MaxTampered = 2
INVARIANTS NoCode Refuses Answers
CHECK_DEADLOCK FALSE
