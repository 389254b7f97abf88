SPECIFICATION Spec
CONSTANTS
  Toks = {"a", "b"}
  Known0 = {"z"}
  Unknown = {"u"}
  MaxDocs = 2
  MaxLen = 2
  MaxQuery = 2
  AllParams = FALSE
  BrokenDf0 = FALSE
  BrokenMask = FALSE
INVARIANTS NeutralTokens
CHECK_DEADLOCK FALSE
