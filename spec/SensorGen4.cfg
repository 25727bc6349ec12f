CHECK_DEADLOCK FALSE
SPECIFICATION Spec
CONSTANT Depth = 4
