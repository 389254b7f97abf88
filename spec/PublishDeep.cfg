SPECIFICATION Spec
CONSTANTS InPlace = FALSE
Forums = 3
PerForum = 3
Runs = 3
INVARIANTS Complete CompleteAtRest Finished
PROPERTY Final
CHECK_DEADLOCK FALSE
