SPECIFICATION Spec
CONSTANTS
  MaxLen = 7
  MaxScore = 2
  BadReplace = FALSE
  Emit = FALSE
INVARIANTS IsHeap OwnScores TopKOfPrefix
CHECK_DEADLOCK FALSE
