SPECIFICATION Spec
CONSTANTS MaxFields = 4
 Types = {1, 4, 9}
 MaxRows = 3
INVARIANTS Recovered Noticed
CHECK_DEADLOCK FALSE
