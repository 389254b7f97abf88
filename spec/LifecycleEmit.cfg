SPECIFICATION Spec
CONSTANTS
  R = {"A", "B", "C"}
  O = {"o", "p"}
  D = {"d", "e"}
  MaxEdits = 3
  CopyVocab = TRUE
  UnlinkBeforeWrite = TRUE
  PublishAtEnd = TRUE
  Emit = TRUE
  Depth = 12
INVARIANTS AnswersStable DirectoriesHold
CHECK_DEADLOCK FALSE
