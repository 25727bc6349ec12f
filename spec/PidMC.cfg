CHECK_DEADLOCK FALSE
SPECIFICATION Spec
CONSTANT Depth = 4
INVARIANTS Limited Reaches
PROPERTIES Switched LeavesAtOnce
