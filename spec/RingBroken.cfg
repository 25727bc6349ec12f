SPECIFICATION Spec
CONSTANTS N = 3
 Buf = {0, 1}
 Broken = "pop_back"
 Val = {1, 2}
INVARIANTS NothingBad OnlyContentLive Bounded
CHECK_DEADLOCK FALSE
