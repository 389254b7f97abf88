SPECIFICATION Spec
CONSTANTS UseStemmer = TRUE
Counter = "size"
EmptyId = "careful"
MaxStreams = 0
SomeTexts = TRUE
WithSave = TRUE
Emit = FALSE
Depth = 0
INVARIANTS VocabularyCoherent Decodes Known
PROPERTY Stable
CHECK_DEADLOCK FALSE
