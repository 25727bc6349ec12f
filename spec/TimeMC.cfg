SPECIFICATION Spec
CONSTANTS LB = 2
 NB = 3
INVARIANTS Exact Undo Order Quantised
CHECK_DEADLOCK FALSE
