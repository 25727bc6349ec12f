SPECIFICATION Spec
INVARIANTS CountsDays RoundTrip TodOk
CHECK_DEADLOCK FALSE
