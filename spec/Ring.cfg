SPECIFICATION Spec
CONSTANTS N = 3
 Buf = {0, 1}
 Broken = "none"
 Val = {1, 2}
INVARIANTS NothingBad OnlyContentLive Bounded
PROPERTY RefinesDeque
CHECK_DEADLOCK FALSE
