SPECIFICATION Spec
CONSTANTS
  Cap = 2
  Sats = {1, 2, 3}
  MaxArrivals = 6
INVARIANTS Bounded OnlyTold NoneLostWithRoom JustHeard Complete
PROPERTIES OwnOnly DropsOldest
CHECK_DEADLOCK FALSE
