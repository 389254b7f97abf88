SPECIFICATION Spec
CONSTANTS UseStemmer = FALSE
Counter = "size"
EmptyId = "careful"
MaxStreams = 1
SomeTexts = TRUE
WithSave = FALSE
Emit = FALSE
Depth = 0
INVARIANTS VocabularyCoherent Decodes Known
PROPERTY Stable
CHECK_DEADLOCK FALSE
