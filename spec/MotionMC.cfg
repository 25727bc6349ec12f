CHECK_DEADLOCK FALSE
SPECIFICATION Spec
CONSTANTS Depth = 4
INVARIANTS Unit Group Acts Rigid Elements
