SPECIFICATION Spec
CONSTANTS Tie = 1
 Window = 6
 Capacity = 4
 Stamps = {0, 2, 3, 4, 6, 9}
 Kinds = {"imu", "obs", "pp"}
 N = 4
 Rewind = "strict"
INVARIANTS NeverEmpty InOrder AtItsTime EachOnce Bounded Current
CHECK_DEADLOCK FALSE
