SPECIFICATION Spec
CONSTANTS
  System = "glo"
  Issues = {1, 2}
  Depth = 11
  Harms = {"ok", "bad"}
  Disturbances = 2
  Printing = TRUE
INVARIANTS Whole Newest Once OnFive Complete Emit
CHECK_DEADLOCK FALSE
