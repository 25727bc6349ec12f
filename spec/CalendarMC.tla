----------------------------- MODULE CalendarMC -----------------------------
(* Sanity of Calendar itself: the calendar counts days one by one over two    *)
(* centuries, and conversions there and back are the identity.                *)
EXTENDS Calendar
VARIABLES y, m, d, n
Leap4(yy) == (yy % 4 = 0 /\ yy % 100 /= 0) \/ yy % 400 = 0
MonthLen(yy, mm) == IF mm = 2 THEN (IF Leap4(yy) THEN 29 ELSE 28) ELSE IF mm \in {4, 6, 9, 11} THEN 30 ELSE 31
Init == y = 1970 /\ m = 1 /\ d = 1 /\ n = 0
Next == /\ y < 2110 /\ n' = n + 1
        /\ IF d < MonthLen(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
           ELSE /\ d' = 1 /\ IF m < 12 THEN m' = m + 1 /\ y' = y ELSE m' = 1 /\ y' = y + 1
Spec == Init /\ [][Next]_<<y, m, d, n>>
CountsDays == Days(y, m, d) = n
Tows == {0, 1, 999, 1000, 86399999, 86400000, 17999, 18000, 604799999}
RoundTrip == \A ms \in Tows : LET w == n \div 7 IN
    /\ GpsWeek(FromGps(w, ms)) = w /\ GpsTow(FromGps(w, ms)) = <<ms \div 1000, (ms % 1000) * 1000000>>
    /\ GlonassWeek(FromGlonass(w, ms)) = w /\ GlonassDay(FromGlonass(w, ms)) = ms \div 86400000
TodOk == \A ms \in {0, 500, 43200000, 86399999} :
    LET r == At(n, (n * 7919) % DaySec, 0) IN
    \E c \in ClosestTod(r, ms) : c = FromGlonass(n \div 7, 0) \/ Dist(c, r) <= 43200001
=============================================================================
