SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Bound = 2
INVARIANTS Certified Shrinks Sequential Blind Modulo Propagates Still
