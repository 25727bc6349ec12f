SPECIFICATION Spec
CONSTANTS N = 2
Ds = {1, 2, 7}
Us <- Small
P = 2
M = 4
K = 2
Reach = 6
INVARIANT Optimal
INVARIANT Complete
PROPERTY Ends
CHECK_DEADLOCK FALSE
