SPECIFICATION Spec
CONSTANTS
  System = "gps"
  Issues = {1, 2}
  Depth = 6
  Harms = {"ok", "bad"}
  Disturbances = 6
  Printing = FALSE
INVARIANTS Whole Newest Once OnFive Complete Emit
CHECK_DEADLOCK FALSE
