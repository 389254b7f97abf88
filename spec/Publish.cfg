SPECIFICATION Spec
CONSTANTS InPlace = FALSE
Forums = 2
PerForum = 2
Runs = 3
INVARIANTS Complete CompleteAtRest Finished
PROPERTY Final
CHECK_DEADLOCK FALSE
