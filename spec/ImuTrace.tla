------------------------------ MODULE ImuTrace ------------------------------
(* Recorded inertial intervals: samples, splits and what they amount to.      *)
EXTENDS Imu, TLC, Json, IOUtils, Trace
VARIABLES l, parts, b, r, asked, exact
vars == <<parts, b, r, asked, exact>>
\* within t of each other
Is(x, y, t) == Size(x - y) <= t
\* the recorded interval m is what the samples h amount to
Shown(m, h, ex) ==
    \E s \in {Sum(h, b, r)} : \E d \in {Span(h) + 1} :
      /\ TRUE = (m.t0 = Start(h) /\ m.tf = End(h) /\ m.n = Len(h) - 1 /\ m.off)
      \* instants near a sample, and gravity, round
      /\ TRUE = Is(m.ang2, s.ang2, IF ex THEN 2 ELSE 400)
      /\ TRUE = Is(m.b2, s.b2, IF ex THEN 2 ELSE 2000)
      /\ TRUE = Is(m.al2, s.al2, IF ex THEN 2 + d ELSE 2000 * d)
      /\ TRUE = (Is(m.jg, s.jg, 1) /\ Is(m.jb, s.jb, 1) /\ Is(m.ja, s.ja, IF ex THEN 2 ELSE 2 * d))
      /\ TRUE = (ex => Is(m.caa, s.caa, 2 + s.caa \div 1000000) /\ Is(m.cab, s.cab, 2) /\ Is(m.cbb, s.cbb, 2) /\ Is(m.cgg, s.cgg, 2))
Step(e) ==
    CASE e.op = "new" ->
            /\ asked = <<>> /\ asked' = <<>> /\ exact' = TRUE
            /\ parts' = <<<<[t |-> e.t, a |-> e.a, w |-> e.w]>>>> /\ b' = e.bias /\ r' = e.noise
      [] e.op \in {"sample", "cut"} -> asked = <<>> /\ asked' = <<e>> /\ UNCHANGED <<parts, b, r, exact>>
      [] e.op = "sampled" ->
            /\ asked # <<>> /\ asked' = <<>> /\ UNCHANGED <<b, r, exact>>
            /\ \E q \in {asked[1]} :
                 /\ TRUE = (q.op = "sample" /\ Accepts(parts[q.k], q.t))
                 /\ parts' = [parts EXCEPT ![q.k] = Append(@, [t |-> q.t, a |-> q.a, w |-> q.w])]
                 /\ Shown(e.it, parts'[q.k], exact)
      [] e.op = "cutted" ->
            /\ asked # <<>> /\ asked' = <<>> /\ UNCHANGED <<b, r>>
            /\ \E q \in {asked[1]} : \E h \in {parts[q.k]} :
                 /\ TRUE = (q.op = "cut" /\ Inner(h, q.t))
                 /\ exact' = (exact /\ q.t % 1000 = 0)
                 /\ parts' = SubSeq(parts, 1, q.k - 1) \o <<Left(h, q.t), Right(h, q.t)>> \o SubSeq(parts, q.k + 1, Len(parts))
                 /\ Shown(e.left, parts'[q.k], exact') /\ Shown(e.right, parts'[q.k + 1], exact')
      \* where an interval ends, started at the origin with velocity v along the axis; the residual of start and end is zero
      [] e.op = "end" ->
            /\ asked = <<>> /\ UNCHANGED vars
            /\ \E h \in {parts[e.k]} : \E s \in {Sum(h, b, r)} : \E d \in {Span(h) + 1} :
                 IF Len(h) = 1 THEN TRUE = (~e.ok /\ e.z = 0 /\ Is(e.v1, 2000 * e.v, 2))
                 ELSE /\ TRUE = (e.ok /\ e.zero /\ e.off)
                      /\ TRUE = Is(e.v1, EndV(h, s, e.v), IF exact THEN 3 ELSE 2500)
                      /\ TRUE = Is(e.z, EndZ(h, s, e.v), IF exact THEN 4 + d ELSE 2500 * d + 120000)
      \* away from where the interval ends: by dp and by the rotation turn (seen from the start and the end), and with velocity dv more
      [] e.op = "look" ->
            /\ asked = <<>> /\ UNCHANGED vars
            /\ TRUE = (Len(parts[e.k]) > 1 /\ e.same)
            /\ \A i \in 1..3 : Is(e.res[i], 1000 * e.dp[i], 1)
            /\ Is(e.res[6], 1000 * e.dv[3], 1)
            /\ \A i \in 1..4 : Is(e.back[i], 1000 * e.turn[i], 1)
            \* the turn of the interval, about the third axis, turns dv
            /\ TRUE = Is((e.res[4] \div 10) * (e.res[4] \div 10) + (e.res[5] \div 10) * (e.res[5] \div 10), 10000 * (e.dv[1] * e.dv[1] + e.dv[2] * e.dv[2]), 8000)
            /\ ((exact /\ Sum(parts[e.k], b, r).ang2 = 0) => \A i \in 1..2 : Is(e.res[3 + i], 1000 * e.dv[i], 1))
            \* derivatives are those of the residual
            /\ \A i \in 1..Len(e.rows) : \A q \in 1..9 : Is(e.rows[i].jd[q], e.rows[i].fd[q], 2)
      [] e.op = "none" -> asked = <<>> /\ TRUE = (Len(parts[e.k]) = 1) /\ UNCHANGED vars
      [] e.op = "crash" ->
            /\ asked # <<>> /\ asked' = <<>> /\ UNCHANGED <<parts, b, r, exact>>
            /\ \E q \in {asked[1]} :
                 TRUE = (IF q.op = "sample" THEN ~Accepts(parts[q.k], q.t) ELSE ~Inner(parts[q.k], q.t) \/ TooClose(parts[q.k], q.t))
Init == l = 1 /\ parts = <<>> /\ b = [a |-> 0, w |-> 0] /\ r = [a |-> 0, w |-> 0] /\ asked = <<>> /\ exact = TRUE
Next == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_<<l, vars>>
=============================================================================
