-------------------------------- MODULE Pid --------------------------------
(* The controller. Integers throughout: gains, time steps and time constants  *)
(* in 1/16, values and errors in 1/256, integral and derivative in 1/4096,    *)
(* outputs, their terms and the limit in 1/65536.                             *)
(* g: [kp, ki, kd, max, tau2 (twice the time constant)]                       *)
EXTENDS Integers
Size(x) == IF x < 0 THEN -x ELSE x
Sign(x) == IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1
Clip(x, m) == IF x > m THEN m ELSE IF x < -m THEN -m ELSE x
\* the quotient nearest to a / b (b > 0)
Near(a, b) == (2 * a + b) \div (2 * b)
\* smoothed derivative after a step of dt from value prev to x
Derivative(g, D, dt, prev, x) == Near((g.tau2 - dt) * D + 2 * 256 * (x - prev), g.tau2 + dt)
P(g, e) == 16 * g.kp * e
Dt(g, xdot) == IF g.kd > 0 THEN g.kd * xdot ELSE 0
\* the integral including this step, and its contribution to the output
Integrated(g, I, e, dt, upd) == IF g.ki > 0 /\ upd THEN I + e * dt ELSE I
It(g, I, upd) == IF g.ki > 0 /\ upd THEN g.ki * I ELSE 0
Sum(g, I1, e, xdot, upd) == P(g, e) - Dt(g, xdot) + It(g, I1, upd)
Output(g, I1, e, xdot, upd) == Clip(Sum(g, I1, e, xdot, upd), g.max)
\* contribution of the integral that just reaches the limit
Needed(g, I1, e, xdot, upd) == Output(g, I1, e, xdot, upd) - P(g, e) + Dt(g, xdot)
\* integrals that may be stored after the step: when the other terms alone are within the limit, and only the
\* integral makes the output saturate, it is cut back; when the others exceed the limit on their own, it may
\* be kept or cut back, but never made larger
Stored(g, I1, e, xdot, upd) ==
    LET u == Sum(g, I1, e, xdot, upd) cut == Near(Needed(g, I1, e, xdot, upd), IF g.ki > 0 THEN g.ki ELSE 1)
    IN IF g.ki = 0 \/ ~upd \/ Size(u) <= g.max THEN {I1}
       ELSE IF Size(P(g, e) - Dt(g, xdot)) <= g.max THEN {cut}
       ELSE {I1} \cup (IF Size(cut) <= Size(I1) THEN {cut} ELSE {})
(* The waypoint follower: way[i + 1] is headed for; positions in quarter      *)
(* metres, threshold likewise.                                                *)
Dist2(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2]) + (a[3] - b[3]) * (a[3] - b[3])
\* (exactly at the threshold it may move on or not: positions are rounded)
Follow(way, i, thr, pos, n) ==
    LET d == Dist2(way[i + 1], pos)
    IN (IF d <= thr * thr THEN {(i + 1) % n} ELSE {}) \cup (IF d >= thr * thr THEN {i} ELSE {})
=============================================================================
