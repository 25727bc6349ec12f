CHECK_DEADLOCK FALSE
SPECIFICATION Spec
CONSTANTS Steps = 7 Gaps = {0, 1, 2, 3, 7} Periods = {1, 2, 3, 5} Records = 4
INVARIANTS Spaced None InOrder Prompt Waiting
