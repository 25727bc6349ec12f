CHECK_DEADLOCK FALSE
SPECIFICATION GSpec
CONSTANTS Puts = 2 Long = 2
