SPECIFICATION Spec
CONSTANTS
  R = {"A", "B"}
  O = {"o", "p"}
  D = {"d"}
  MaxEdits = 2
  CopyVocab = TRUE
  UnlinkBeforeWrite = TRUE
  PublishAtEnd = FALSE
  Emit = FALSE
  Depth = 0
INVARIANTS AnswersStable DirectoriesHold
CHECK_DEADLOCK FALSE
