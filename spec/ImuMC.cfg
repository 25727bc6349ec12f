CHECK_DEADLOCK FALSE
SPECIFICATION Spec
CONSTANTS Samples = 4 Splits = 2 Inputs = {0, 36}
INVARIANTS WellFormed Meet Once NoOthers Additive
