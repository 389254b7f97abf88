SPECIFICATION Spec
CONSTANTS
  Toks = {"a", "b"}
  Known0 = {"z"}
  Unknown = {"u"}
  MaxDocs = 3
  MaxLen = 2
  MaxQuery = 3
  AllParams = FALSE
  BrokenDf0 = FALSE
  BrokenMask = FALSE
INVARIANTS EagerEqualsDefinition TermsDescribeScore NeutralTokens RenamingInvariant
CHECK_DEADLOCK FALSE
