SPECIFICATION Spec
CONSTANTS UseStemmer = TRUE
Counter = "captured"
EmptyId = "careful"
MaxStreams = 2
SomeTexts = TRUE
WithSave = FALSE
Emit = FALSE
Depth = 0
INVARIANTS VocabularyCoherent Decodes Known
PROPERTY Stable
CHECK_DEADLOCK FALSE
