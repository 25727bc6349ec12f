SPECIFICATION Spec
CONSTANTS
  System = "gal"
  Issues = {1}
  Depth = 7
  Harms = {"ok"}
  Disturbances = 7
  Printing = FALSE
INVARIANTS Whole Newest Once OnFive Complete Emit
CHECK_DEADLOCK FALSE
