CHECK_DEADLOCK FALSE
SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS Divided Shortens Turns Epochs
