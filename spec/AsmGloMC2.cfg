SPECIFICATION Spec
CONSTANTS
  System = "glo"
  Issues = {1, 2}
  Depth = 12
  Harms = {"ok", "bad"}
  Disturbances = 2
  Printing = FALSE
INVARIANTS Whole Newest Once OnFive Complete Emit
CHECK_DEADLOCK FALSE
