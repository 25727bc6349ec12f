CHECK_DEADLOCK FALSE
SPECIFICATION Spec
CONSTANTS Puts = 2 Long = 2
INVARIANTS SplitsBack PutGet Below Typed SizedOnly
PROPERTY Frame
