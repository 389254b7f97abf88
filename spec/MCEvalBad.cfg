SPECIFICATION Spec
CONSTANTS
  NDocs = 2
  MaxGrade = 1
  MaxScore = 1
  BadTotal = TRUE
INVARIANTS InRange Perfect Complete NothingRelevant APBelowRecall
PROPERTY Improves
CHECK_DEADLOCK FALSE
