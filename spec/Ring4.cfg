SPECIFICATION Spec
CONSTANTS N = 4
 Buf = {0}
 Broken = "none"
 Val = {1,2,3}
INVARIANTS NothingBad OnlyContentLive Bounded
PROPERTY RefinesDeque
CHECK_DEADLOCK FALSE
