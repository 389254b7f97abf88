SPECIFICATION Spec
CONSTANTS Versions = {1, 2, 3}
NeedsNnoc = {2, 3}
MaxSaves = 3
Order = "paramsLast"
INVARIANTS Recovery Complete Aligned
CHECK_DEADLOCK FALSE
