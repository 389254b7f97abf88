SPECIFICATION Spec
CONSTANTS MaxLen = 7
MaxTexts = 1
Emptied = FALSE
Alphabet = {0,1,2}
INVARIANTS ScansMaximal SameTokens VocabularyExact
CHECK_DEADLOCK FALSE
