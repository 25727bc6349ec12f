SPECIFICATION Spec
CONSTANTS Keys = {1, 2}
 MaxT = 3
 MaxRecords = 3
 Period = 2
 MaxFail = 2
INVARIANTS StreamsInOrder AllAtEnd Merged Amended Schedule OnTime Stops
PROPERTIES ClosedFixed Grows
CHECK_DEADLOCK FALSE
