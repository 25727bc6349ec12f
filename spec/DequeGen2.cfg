SPECIFICATION Spec
CONSTANTS Capacity = 2
 Depth = 4
 Two = TRUE
CONSTRAINT Short
INVARIANT Emit
CHECK_DEADLOCK FALSE
