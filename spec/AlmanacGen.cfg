SPECIFICATION Spec
CONSTANTS
  EpochsMs = {0, 3600000, 7200000}
  InstantsMs = {}
  Depth = 4
CONSTRAINT Short
INVARIANT Emit
CHECK_DEADLOCK FALSE
