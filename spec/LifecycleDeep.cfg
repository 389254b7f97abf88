SPECIFICATION Spec
CONSTANTS
  R = {"A", "B"}
  O = {"o", "p"}
  D = {"d", "e"}
  MaxEdits = 1
  CopyVocab = TRUE
  UnlinkBeforeWrite = TRUE
  PublishAtEnd = TRUE
  Emit = FALSE
  Depth = 0
INVARIANTS AnswersStable DirectoriesHold
CHECK_DEADLOCK FALSE
