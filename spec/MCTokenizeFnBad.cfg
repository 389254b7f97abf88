SPECIFICATION Spec
CONSTANTS MaxLen = 3
MaxTexts = 1
Emptied = TRUE
Alphabet = {0,1,2}
INVARIANTS ScansMaximal SameTokens VocabularyExact
CHECK_DEADLOCK FALSE
