CHECK_DEADLOCK FALSE
SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS Divided Shortens Turns Epochs
