---------------------------- MODULE MeasureTrace ----------------------------
(* Recorded evaluations of measurement models. The state is which models were *)
(* made, and of what; an evaluation depends on that and on its parameters     *)
(* only, whatever was evaluated before and whichever derivatives are wanted.  *)
EXTENDS Measure, Json, IOUtils, Trace
VARIABLES l, made
Near(x, y, tol) == x - y <= tol /\ y - x <= tol
Fr(q) == Rot(<<q[1], q[2], q[3], q[4]>>, q[5])
Mot(q, t) == Motion(Fr(q), t, 1)
\* derivatives: what the model says, along a direction, and what the residual does; tol for a weighted row
Derivatives(e, tol) == \A i \in 1..Len(e.rows) : \A r \in DOMAIN tol : Near(e.rows[i].jd[r], e.rows[i].fd[r], tol[r])
Pure(e) == e.ok /\ e.kept /\ e.same
\* mm, mm/s (the line of sight is taken to the reference point of the earth's turning), thousandths
Tol(U) == <<6 * U[1] + 60 * Abs(U[2]) + Abs(U[3]) + 1, 60 * U[4] + Abs(U[5]) + 1, U[6] + 1>>
\* the rate is approximated as if the directions did not change
JTol(U) == <<3 + U[1] + 20 * Abs(U[2]), 3 + 20 * U[4], 3>>
SetPrange(e) == [kind |-> "prange", E |-> Fr(e.E), rec |-> e.rec, g |-> e.g, h |-> e.h, sat |-> e.sat, ahead |-> e.ahead, sclk |-> e.sclk, vs |-> e.vs,
                 rate |-> e.rate, U |-> e.U, atm |-> e.atm, slack |-> IF e.jump THEN 24000 ELSE 0]
SetPhase(e) == [kind |-> "phase", E |-> Fr(e.E), rec |-> e.rec, g |-> e.g, h |-> e.h, sat |-> e.sat, g2 |-> e.g2, h2 |-> e.h2, sat2 |-> e.sat2, sclk |-> e.sclk,
                sclk2 |-> e.sclk2, ahead |-> e.ahead, xi |-> e.xi, wn |-> e.wn, wd |-> e.wd, farther |-> e.farther, jump |-> e.how = "jump"]
AtPrange(m, e) ==
    \E v \in {[region |-> Mot(e.rq, e.rt), body |-> Mot(e.bq, e.bt), arm |-> Vec(e.arm, 1), vel |-> Vec(e.vel, 1), clk |-> e.clk, sw |-> e.sw]} :
    \E r \in {Plain(m, v)} : \E x \in {Weighted(m.U, r)} : \E tol \in {Tol(m.U)} :
        /\ Near(e.res[1], x[1], tol[1] + m.slack * m.U[1])
        /\ Near(e.res[2], x[2], tol[2]) /\ Near(e.res[3], x[3], tol[3])
        /\ Derivatives(e, JTol(m.U))
\* mm, in thousandths of a cycle of wavelength wn/wd; AS_BUILT: multiplied by the wavelength instead of divided, which is how a known finding is recognized
AsBuilt == "AS_BUILT" \in DOMAIN IOEnv
Cycles(m, d) == IF AsBuilt THEN (d * m.wn) \div m.wd ELSE (d * m.wd) \div m.wn
AtPhase(m, e) ==
    \E v \in {[region |-> Mot(e.rq, e.rt), body |-> Mot(e.bq, e.bt), body2 |-> Mot(e.cq, e.ct), arm |-> Vec(e.arm, 1), clk1 |-> e.clk1, clk2 |-> e.clk2]} :
    \E d \in {PhaseChange(m, v)} :
    \* (the distance of the reference point changes only where a cycle is a metre)
    \E delta \in {1000 * m.ahead - Cycles(m, d)} :
        /\ m.jump \/ Near(e.res[1], Eighths(e.sw1, Eighths(e.sw2, delta)) * m.xi, 10 * m.xi)
        /\ Derivatives(e, <<3 + 2 * m.xi>>)
AtClock(m, e) ==
    \E x \in {Clock([xi |-> m.xi, dt |-> m.dt], e)} :
        /\ Near(16 * e.res[1], 1000 * x[1], 16) /\ Near(e.res[2], 1000 * x[2], 1) /\ Near(8 * e.res[3], 1000 * x[3], 8)
        /\ Derivatives(e, <<2, 2, 2>>)
AtPose(m, e) ==
    /\ \A i \in 1..6 : Near(e.res[i], m.xi[i] * e.x[i], 1)
    /\ Derivatives(e, [i \in 1..6 |-> 3 + m.xi[i]])
Step(e) ==
    CASE e.op = "new" -> made' = <<>>
      [] e.op = "prange" -> made' = [i \in DOMAIN made \cup {e.k} |-> IF i = e.k THEN SetPrange(e) ELSE made[i]]
      [] e.op = "phase" ->
            /\ TRUE = (e.refused = (e.how \notin {"same", "jump"}))
            /\ made' = IF e.refused THEN [i \in DOMAIN made \ {e.k} |-> made[i]] ELSE [i \in DOMAIN made \cup {e.k} |-> IF i = e.k THEN SetPhase(e) ELSE made[i]]
      [] e.op = "clock" -> made' = [i \in DOMAIN made \cup {e.k} |-> IF i = e.k THEN [kind |-> "clock", xi |-> e.xi, dt |-> e.dt] ELSE made[i]]
      [] e.op = "prior" -> made' = [i \in DOMAIN made \cup {e.k} |-> IF i = e.k THEN [kind |-> "pose", xi |-> e.xi] ELSE made[i]]
      [] e.op = "none" -> UNCHANGED made
      [] e.op = "atprange" -> TRUE = (Pure(e) /\ e.k \in DOMAIN made /\ made[e.k].kind = "prange" /\ AtPrange(made[e.k], e)) /\ UNCHANGED made
      [] e.op = "atphase" -> TRUE = (Pure(e) /\ e.k \in DOMAIN made /\ made[e.k].kind = "phase" /\ AtPhase(made[e.k], e)) /\ UNCHANGED made
      [] e.op = "atclock" -> TRUE = (Pure(e) /\ e.k \in DOMAIN made /\ made[e.k].kind = "clock" /\ AtClock(made[e.k], e)) /\ UNCHANGED made
      [] e.op = "atpose" -> TRUE = (Pure(e) /\ e.k \in DOMAIN made /\ made[e.k].kind = "pose" /\ AtPose(made[e.k], e)) /\ UNCHANGED made
      [] OTHER -> FALSE
Init == l = 1 /\ made = <<>>
Next == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_<<l, made>>
=============================================================================
