SPECIFICATION Spec
CONSTANTS
  System = "gps"
  Issues = {1, 2}
  Depth = 4
  Harms = {"ok", "bad"}
  Disturbances = 4
  Printing = TRUE
INVARIANTS Whole Newest Once OnFive Complete Emit
CHECK_DEADLOCK FALSE
