SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  MaxScore = 2
  BadReplace = FALSE
  Emit = TRUE
INVARIANTS IsHeap OwnScores TopKOfPrefix
CHECK_DEADLOCK FALSE
