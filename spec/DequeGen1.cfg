SPECIFICATION Spec
CONSTANTS Capacity = 2
 Depth = 5
 Two = FALSE
CONSTRAINT Short
INVARIANT Emit
CHECK_DEADLOCK FALSE
