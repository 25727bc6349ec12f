SPECIFICATION TraceSpec
CONSTANT LowBits = 106
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
