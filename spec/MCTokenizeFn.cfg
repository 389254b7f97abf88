SPECIFICATION Spec
CONSTANTS MaxLen = 3
MaxTexts = 2
Emptied = FALSE
Alphabet = {0,1,2}
INVARIANTS ScansMaximal SameTokens VocabularyExact
CHECK_DEADLOCK FALSE
