SPECIFICATION Spec
CONSTANTS
  NDocs = 3
  MaxGrade = 3
  MaxScore = 3
  BadTotal = FALSE
INVARIANTS InRange Perfect Complete NothingRelevant APBelowRecall
PROPERTY Improves
CHECK_DEADLOCK FALSE
