SPECIFICATION TraceSpec
CONSTANTS LB = 1048576
 NB = 1000000000
 Half = 50000
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
