SPECIFICATION Spec
CONSTANTS
  Stamps = {1, 2}
  Size = 2
  N = 2
CONSTRAINT Short
INVARIANT Emit
CHECK_DEADLOCK FALSE
