SPECIFICATION Spec
CONSTANTS UseStemmer = TRUE
Counter = "size"
EmptyId = "careful"
MaxStreams = 3
SomeTexts = TRUE
WithSave = TRUE
Emit = TRUE
Depth = 14
CHECK_DEADLOCK FALSE
