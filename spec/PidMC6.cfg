CHECK_DEADLOCK FALSE
SPECIFICATION Spec
CONSTANT Depth = 6
INVARIANTS Limited Reaches
PROPERTIES Switched LeavesAtOnce
