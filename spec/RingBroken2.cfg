SPECIFICATION Spec
CONSTANTS N = 3
 Buf = {0, 1}
 Broken = "evict_first"
 Val = {1, 2}
INVARIANTS NothingBad OnlyContentLive Bounded
CHECK_DEADLOCK FALSE
