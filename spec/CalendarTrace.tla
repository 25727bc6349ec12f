--------------------------- MODULE CalendarTrace ---------------------------
EXTENDS Calendar, TLC, Json, IOUtils, Trace
VARIABLE l
Step(e) ==
    \/ e.op = "new"
    \/ /\ e.op = "gps" /\ e.r = FromGps(e.week, e.ms) /\ e.gal = e.r
       /\ e.back = e.week /\ e.tow = <<e.ms \div 1000, (e.ms % 1000) * 1000000>>
    \/ /\ e.op = "glo" /\ e.r = FromGlonass(e.week, e.ms)
       /\ e.back = e.week /\ e.day = e.ms \div 86400000
    \/ /\ e.op = "inst" /\ e.gps = GpsWeek(e.t) /\ e.tow = GpsTow(e.t) /\ e.glo = GlonassWeek(e.t)
       /\ e.day = GlonassDay(e.t) /\ e.unix = UnixWeek(e.t)
    \/ e.op = "tod" /\ e.r \in ClosestTod(e.ref, e.ms)
    \/ e.op = "cal" /\ e.r = FromCalendar(e.y, e.m, e.d, e.h, e.mi, e.s, e.ns)
Init == l = 1
Next == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
=============================================================================
