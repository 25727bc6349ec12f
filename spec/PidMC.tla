------------------------------- MODULE PidMC -------------------------------
(* All short histories of one controller: small gains, limits and errors.     *)
EXTENDS Pid, Sequences
CONSTANTS Depth
VARIABLES g, I, u, e, upd, p, n, wound
vars == <<g, I, u, e, upd, p, n, wound>>
Gains == [kp : {0, 4, 16, 48}, ki : {0, 8, 16}, kd : {0}, max : {65536, 4 * 65536}, tau2 : {8}]
Errors == {-1024, -256, 0, 256, 512, 1024}
Init == g \in Gains /\ I = 0 /\ u = 0 /\ e = 0 /\ upd = FALSE /\ p = 0 /\ n = 0 /\ wound = FALSE
Step(er, dt, up) ==
    LET I1 == Integrated(g, I, er, dt, up)
    IN /\ n < Depth /\ n' = n + 1 /\ g' = g /\ e' = er /\ upd' = up
       /\ u' = Output(g, I1, er, 0, up)
       /\ p' = P(g, er)
       /\ I' \in Stored(g, I1, er, 0, up)
       \* saturated by the integral
       /\ wound' = (up /\ g.ki > 0 /\ Size(Sum(g, I1, er, 0, up)) > g.max /\ Size(P(g, er)) <= g.max)
Next == \E er \in Errors : \E dt \in {4, 16} : \E up \in BOOLEAN : Step(er, dt, up)
Spec == Init /\ [][Next]_vars
Limited == Size(u) <= g.max
\* what is stored after a saturated step, with the same other terms, just reaches the limit
Reaches == wound => Size(p + g.ki * I) <= g.max + g.ki /\ Size(p + g.ki * I) >= g.max - g.ki
Switched == [][~upd' => I' = I]_vars
\* one step after saturating because of the integral, an error of the other sign leaves the limit
LeavesAtOnce == [][(wound /\ upd' /\ Sign(e) = Sign(u) /\ Sign(e') = -Sign(e) => Sign(u) * u' < g.max)]_vars
=============================================================================
