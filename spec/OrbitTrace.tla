----------------------------- MODULE OrbitTrace -----------------------------
(* Recorded satellite states. arc: the numerically propagated ones, with what *)
(* has been seen of each at which time, and whose image it is.                *)
EXTENDS Orbit, TLC, Json, IOUtils, Trace
VARIABLES l, arc
Is(got, D, x) == D % x.d = 0 /\ got = Times(D \div x.d, x.t)
MaxAge == 7200000
\* 1e-13 of the semi-major axis; micrometres and micrometres per second
Near == 60
Loose == 4000
Tight == 10
Kep(o) ==
    /\ HasShape(o)
    /\ o.stale = (Abs(o.dtms) > MaxAge) /\ o.current = ~o.stale
    /\ ~o.stale =>
        /\ o.t /\ o.fin
        /\ o.off <= Near /\ Is(o.pos, o.D, Position(o))
        /\ o.Dv > 0 => o.offv <= Near /\ Is(o.vel, o.Dv, Velocity(o))
        /\ Abs(o.clk - (Poly(o.af[1], o.af[2], o.af[3], o.dtoc) + Relativity(o.sqrta, o))) <= 60
        /\ o.en = 0 => Abs(o.drift - Drift(o.af[2], o.af[3], o.dtoc)) <= 2
Kin(e) ==
    /\ \A i \in 1..3 : Abs(e.rate[i] - e.vel[i]) <= 2
    \* the periodic relativistic term may or may not count as drift
    /\ Abs(e.clkrate - e.drift) <= 2 + e.periodic
    /\ e.low <= e.r /\ e.r <= e.high
\* the arc and those of which it is the image, with how
Seen(k, ms) == {x \in arc[k].seen : x.ms = ms}
Go(e) ==
    /\ e.t /\ e.rate <= 6 /\ e.energy <= 500 /\ (arc[e.k].free => e.spin <= 2000)
    /\ Abs(e.clk - (-arc[e.k].tn + (arc[e.k].gn * (e.ms \div 1000)) \div 100 + (arc[e.k].gn * (e.ms % 1000)) \div 100000)) <= 4 /\ Abs(e.drift - arc[e.k].gn) <= 1
    /\ \A x \in Seen(e.k, e.ms) : Close([m |-> e.pm, u |-> e.pu], x.p, Loose) /\ Close([m |-> e.vm, u |-> e.vu], x.v, Tight)
    /\ e.ms = 0 /\ e.from = "start" => \A x \in arc[e.k].start : [m |-> e.pm, u |-> e.pu] = x.p /\ [m |-> e.vm, u |-> e.vu] = x.v
    /\ arc[e.k].of # 0 => \A x \in Seen(arc[e.k].of, e.ms) :
          Close([m |-> e.pm, u |-> e.pu], Image(arc[e.k].sym, x.p), Loose) /\ Close([m |-> e.vm, u |-> e.vu], Image(arc[e.k].sym, x.v), Tight)
At(ms, e) == [ms |-> ms, p |-> [m |-> e.pm, u |-> e.pu], v |-> [m |-> e.vm, u |-> e.vu]]
NoArc == [seen |-> {}, start |-> {}, of |-> 0, sym |-> "", free |-> FALSE, tn |-> 0, gn |-> 0]
Step(e) ==
    CASE e.op = "new" -> arc' = [k \in 1..3 |-> NoArc]
      [] e.op = "kep" -> TRUE = Kep(e) /\ UNCHANGED arc
      [] e.op = "kin" -> TRUE = Kin(e) /\ UNCHANGED arc
      [] e.op = "glo" -> arc' = [arc EXCEPT ![e.k] = [NoArc EXCEPT !.seen = {At(0, e)}, !.start = {At(0, e)}, !.free = (e.acc[1] = 0 /\ e.acc[2] = 0), !.tn = e.tn, !.gn = e.gn]]
      [] e.op = "twin" -> arc' = [arc EXCEPT ![e.k] = [NoArc EXCEPT !.of = e.j, !.sym = e.sym, !.free = arc[e.j].free, !.tn = arc[e.j].tn, !.gn = arc[e.j].gn]]
      [] e.op = "go" -> /\ TRUE = Go(e)
                        /\ arc' = [arc EXCEPT ![e.k].seen = @ \cup {At(e.ms, e)}]
      [] OTHER -> FALSE
Init == l = 1 /\ arc = <<>>
Next == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_<<l, arc>>
=============================================================================
