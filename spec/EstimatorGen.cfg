SPECIFICATION Spec
CONSTANTS
  Stamps = {1, 2, 3, 4}
  Kinds = {"imu", "pp", "obs"}
  N = 4
CONSTRAINT Short
INVARIANT Emit
CHECK_DEADLOCK FALSE
