SPECIFICATION Spec
CONSTANTS
  Epochs = {1, 3, 5, 9, 11}
  Instants = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}
  MaxArrivals = 6
  Sorted = FALSE
INVARIANTS OnePerEpoch AnswersClosest LatestReceived
CHECK_DEADLOCK FALSE
