------------------------------- MODULE Sensor -------------------------------
(* Simulated sensors. A sensor remembers when it sampled last, and samples at *)
(* the first step at least a period later. Recorded ephemerides wait in a     *)
(* queue per constellation; a query releases the front if it is due.          *)
EXTENDS Integers, Sequences
Due(prev, t, period) == t - prev >= period
\* what a query at t may do to <<previous sample, got>>
Sampled(prev, t, period) == IF Due(prev, t, period) THEN [prev |-> t, got |-> TRUE] ELSE [prev |-> prev, got |-> FALSE]
Ready(queue, t) == queue # <<>> /\ queue[1].t <= t
Rest(queue, t) == IF Ready(queue, t) THEN SubSeq(queue, 2, Len(queue)) ELSE queue
\* --- what an inertial sample reports without noise (micro units) ---
Gravity == <<0, 0, 9806650>>
\* v seen from a body turned by k quarter turns about an axis (1, 2 or 3)
Nx(a) == (a % 3) + 1
Quarter(v, a) == [i \in 1..3 |-> IF i = a THEN v[i] ELSE IF i = Nx(a) THEN v[Nx(i)] ELSE -v[Nx(a)]]
RECURSIVE Seen(_, _, _)
Seen(v, a, k) == IF k % 4 = 0 THEN v ELSE Seen(Quarter(v, a), a, (k % 4) - 1)
Cross(x, y) == <<x[2] * y[3] - x[3] * y[2], x[3] * y[1] - x[1] * y[3], x[1] * y[2] - x[2] * y[1]>>
\* acceleration in mm/s^2, rate in mrad/s, velocity in cm/s; in micro m/s^2
Force(acc, rate, vel, a, k) ==
    [i \in 1..3 |-> 1000 * acc[i] + 10 * Cross(rate, vel)[i] - Seen(Gravity, a, k)[i]]
=============================================================================
