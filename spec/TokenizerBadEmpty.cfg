SPECIFICATION Spec
CONSTANTS UseStemmer = TRUE
Counter = "size"
EmptyId = "max"
MaxStreams = 1
SomeTexts = TRUE
WithSave = FALSE
Emit = FALSE
Depth = 0
INVARIANTS VocabularyCoherent Decodes Known
PROPERTY Stable
CHECK_DEADLOCK FALSE
