SPECIFICATION Spec
CONSTANTS
  NDocs = 3
  MaxGrade = 2
  MaxScore = 2
  BadTotal = FALSE
INVARIANTS InRange Perfect Complete NothingRelevant APBelowRecall
PROPERTY Improves
CHECK_DEADLOCK FALSE
