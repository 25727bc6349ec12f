------------------------------ MODULE Calendar ------------------------------
(* Weeks, times of week, times of day and calendar dates against the          *)
(* library's time base. An instant is <<day, sec, ns>>: days since 1970-01-01,*)
(* second of the day, nanosecond. The library's GPS (and Galileo) time zero   *)
(* is 1980-01-06 00:00:18 in its base, GLONASS time runs 3 h ahead and its    *)
(* weeks are counted from 1970-01-01.                                         *)
EXTENDS Integers, Sequences
DaySec == 86400
GpsDay0 == 3657
Leap == 18
\* instant of day d, second s (any sign, |s| < 2^31), ns
At(d, s, ns) == <<d + s \div DaySec, s % DaySec, ns>>
Shift(t, s) == At(t[1], t[2] + s, t[3])

FromGps(week, ms) == At(GpsDay0 + 7 * week, ms \div 1000 + Leap, (ms % 1000) * 1000000)
FromGlonass(week, ms) == At(7 * week, ms \div 1000 - 3 * 3600, (ms % 1000) * 1000000)

\* the week and the time of week <<second of week, ns>> of an instant
GpsWeek(t) == (Shift(t, -Leap)[1] - GpsDay0) \div 7
GpsTow(t) == LET u == Shift(t, -Leap) IN <<((u[1] - GpsDay0) % 7) * DaySec + u[2], u[3]>>
GlonassWeek(t) == Shift(t, 3 * 3600)[1] \div 7
GlonassDay(t) == Shift(t, 3 * 3600)[1] % 7
UnixWeek(t) == t[1] \div 7

\* the instants with GLONASS time of day ms on the day before, of and after the reference
TodCandidates(ref, ms) == LET d == Shift(ref, 3 * 3600)[1] IN
    {At(d + k, ms \div 1000 - 3 * 3600, (ms % 1000) * 1000000) : k \in {-1, 0, 1}}
\* distance in milliseconds, for instants at most 20 days apart
Abs(x) == IF x < 0 THEN -x ELSE x
Dist(a, b) == Abs((a[1] - b[1]) * DaySec * 1000 + (a[2] - b[2]) * 1000 + (a[3] - b[3]) \div 1000000)
ClosestTod(ref, ms) == {c \in TodCandidates(ref, ms) :
    \A x \in TodCandidates(ref, ms) : Dist(c, ref) <= Dist(x, ref) + 1}

\* days since 1970-01-01 of a Gregorian date
Days(y, m, d) ==
    LET yy == IF m <= 2 THEN y - 1 ELSE y
        era == yy \div 400
        yoe == yy - era * 400
        mp == (m + 9) % 12
        doy == (153 * mp + 2) \div 5 + d - 1
        doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
    IN era * 146097 + doe - 719468
FromCalendar(y, m, d, h, mi, s, ns) == At(Days(y, m, d), h * 3600 + mi * 60 + s, ns)
=============================================================================
