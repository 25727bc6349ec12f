SPECIFICATION TraceSpec
CONSTANT LowBits = 2
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
