SPECIFICATION Spec
CONSTANTS N = 3
Ds = {1, 5}
Us <- Smaller
P = 2
M = 2
K = 3
Reach = 3
INVARIANT Optimal
INVARIANT Complete
PROPERTY Ends
CHECK_DEADLOCK FALSE
