SPECIFICATION Spec
CONSTANTS Tie = 1
 Window = 6
 Capacity = 4
 Stamps = {0, 1, 2, 3, 5, 8}
 Kinds = {"imu", "obs"}
 N = 5
 Rewind = "whole"
INVARIANTS NeverEmpty InOrder AtItsTime EachOnce Bounded Current
CHECK_DEADLOCK FALSE
