SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  MaxScore = 2
  BadReplace = TRUE
  Emit = FALSE
INVARIANTS IsHeap OwnScores TopKOfPrefix
CHECK_DEADLOCK FALSE
