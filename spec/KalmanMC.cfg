SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Bound = 1
INVARIANTS Certified Shrinks Sequential Blind Modulo Propagates Still
