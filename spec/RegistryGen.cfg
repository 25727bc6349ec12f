SPECIFICATION Spec
CONSTANTS
  Cap = 29
  Prefill = 28
  Choice = {1, 2, 28, 40, 41}
  Depth = 4
CONSTRAINT Short
INVARIANT Emit
CHECK_DEADLOCK FALSE
