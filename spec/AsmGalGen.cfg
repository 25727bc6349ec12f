SPECIFICATION Spec
CONSTANTS
  System = "gal"
  Issues = {1, 2}
  Depth = 13
  Harms = {"ok", "bad"}
  Disturbances = 1
  Printing = TRUE
INVARIANTS Whole Newest Once OnFive Complete Emit
CHECK_DEADLOCK FALSE
