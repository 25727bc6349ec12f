SPECIFICATION Spec
CONSTANTS Capacity = 1
 Depth = 5
 Two = FALSE
CONSTRAINT Short
INVARIANT Emit
CHECK_DEADLOCK FALSE
