CHECK_DEADLOCK FALSE
SPECIFICATION Spec
CONSTANTS Depth = 5
INVARIANTS Unit Group Acts Rigid Elements
