------------------------------ MODULE PidTrace ------------------------------
(* Recorded controller runs and waypoint following.                           *)
EXTENDS Pid, Sequences, TLC, Json, IOUtils, Trace
VARIABLES l, g, I, D, prev, way, i
Side(h, a, b) == h[1] * (b[2] - a[2]) - h[2] * (b[1] - a[1])
ctl == <<g, I, D, prev>>
Tol == 64 + 8 * g.kd
Close(a, b) == Size(a - b) <= Tol
\* the contribution a probe with zero error and the integrator on would get
Probe(J) == Clip(It(g, J, TRUE), g.max)
Run(e, xdot) ==
    /\ \E er \in {e.xc - e.x} : \E I1 \in {Integrated(g, I, er, e.dt, e.upd)} :
         /\ TRUE = Close(e.u, Output(g, I1, er, xdot, e.upd))
         /\ TRUE = (Size(e.u) <= g.max)
         /\ \E J \in Stored(g, I1, er, xdot, e.upd) : TRUE = Close(e.probe, Probe(J)) /\ I' = J
    /\ UNCHANGED <<g, way, i>>
Step(e) ==
    CASE e.op = "new" ->
            /\ g' = [kp |-> e.kp, ki |-> e.ki, kd |-> e.kd, max |-> e.max, tau2 |-> e.tau2]
            /\ I' = 0 /\ D' = 0 /\ prev' = 0 /\ way' = <<>> /\ i' = 0
      [] e.op = "run" ->
            \E D1 \in {IF e.dt > 0 THEN Derivative(g, D, e.dt, prev, e.x) ELSE D} :
               Run(e, IF e.dt > 0 THEN D1 ELSE 0) /\ D' = D1 /\ prev' = e.x
      [] e.op = "runx" -> Run(e, e.xdot) /\ UNCHANGED <<D, prev>>
      [] e.op = "follow" -> way' = e.way /\ i' = 0 /\ UNCHANGED ctl /\ TRUE = (e.target = e.way[1])
      [] e.op = "at" ->
            /\ i' \in Follow(way, i, e.thr, e.pos, Len(way)) /\ UNCHANGED <<way, g, I, D, prev>>
            /\ TRUE = (e.target = way[i' + 1])
            \* within the limits of speed and turn rate, turning towards the target (heading along
            \* x or y; no direction is to be had when standing exactly on it)
            /\ TRUE = (e.within /\ (e.pos = way[i' + 1] \/ e.turn = Sign(Side(e.heading, e.pos, way[i' + 1]))))
Init == l = 1 /\ g = [kp |-> 0, ki |-> 0, kd |-> 0, max |-> 0, tau2 |-> 1] /\ I = 0 /\ D = 0 /\ prev = 0 /\ way = <<>> /\ i = 0
Next == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_<<l, g, I, D, prev, way, i>>
=============================================================================
