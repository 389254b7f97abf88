SPECIFICATION Spec
CONSTANTS
  Toks = {"a", "b"}
  Known0 = {"z"}
  Unknown = {"u"}
  MaxDocs = 2
  MaxLen = 2
  MaxQuery = 2
  AllParams = TRUE
  BrokenDf0 = FALSE
  BrokenMask = FALSE
INVARIANTS EagerEqualsDefinition MaskMultipliesFinalScore TermsDescribeScore NeutralTokens RenamingInvariant
CHECK_DEADLOCK FALSE
