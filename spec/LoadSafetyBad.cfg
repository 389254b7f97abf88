SPECIFICATION Spec
CONSTANTS Reader = "loose"
Emit = FALSE
Depth = 0
MaxTampered = 1
INVARIANTS NoCode Refuses Answers
CHECK_DEADLOCK FALSE
