SPECIFICATION Spec
CONSTANTS Keys = {1, 2}
 MaxT = 4
 MaxRecords = 2
 Period = 2
 MaxFail = 2
INVARIANTS StreamsInOrder AllAtEnd Merged Amended Schedule OnTime Stops
PROPERTIES ClosedFixed Grows
CHECK_DEADLOCK FALSE
