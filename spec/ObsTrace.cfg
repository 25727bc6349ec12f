SPECIFICATION TraceSpec
CONSTANT Cap = 29
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
