SPECIFICATION Spec
CONSTANTS
  System = "glo"
  Issues = {1, 2}
  Depth = 6
  Harms = {"ok"}
  Disturbances = 6
  Printing = FALSE
INVARIANTS Whole Newest Once OnFive Complete Emit
CHECK_DEADLOCK FALSE
