SPECIFICATION Spec
CONSTANTS InPlace = TRUE
Forums = 2
PerForum = 2
Runs = 2
INVARIANTS Complete CompleteAtRest Finished
PROPERTY Final
CHECK_DEADLOCK FALSE
