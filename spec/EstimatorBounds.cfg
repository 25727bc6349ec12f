SPECIFICATION TraceSpec
CONSTANTS Tie = 5
 Window = 100000
 Capacity = 99
 Order = FALSE
 Bounds = TRUE
 Cap = 29
 MaxBundle = 30
 Stale = 720000000
 Second = 100000
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
