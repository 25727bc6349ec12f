SPECIFICATION Spec
CONSTANTS Sync1 = 2
Sync2 = 1
Base = 3
MaxLength = 2
Depth = 11
Tails = 8
INVARIANT Exact
INVARIANT Recovers
INVARIANT Bounded
INVARIANT Returns
CHECK_DEADLOCK FALSE
