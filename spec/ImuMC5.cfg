CHECK_DEADLOCK FALSE
SPECIFICATION Spec
CONSTANTS Samples = 5 Splits = 3 Inputs = {0, 36}
INVARIANTS WellFormed Meet Once NoOthers Additive
