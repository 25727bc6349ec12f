SPECIFICATION Spec
INVARIANTS PageNotices Invertible StringNotices
CHECK_DEADLOCK FALSE
