-------------------------------- MODULE Imu --------------------------------
(* Preintegrated inertial intervals: histories of samples                     *)
(*   [t (microseconds), a, w (acceleration and turn rate along one axis,      *)
(*    in sixtieths)]                                                          *)
(* Instants within half a quantum count as the same.                          *)
EXTENDS Integers, Sequences, SequencesExt
Quantum == 100
Half == 50
Size(x) == IF x < 0 THEN -x ELSE x
Near(a, b) == (2 * a + b) \div (2 * b)
Start(h) == h[1].t
End(h) == h[Len(h)].t
Accepts(h, t) == t - End(h) >= Quantum
Inner(h, t) == t - Start(h) > Half /\ End(h) - t > Half
\* the last sample at or before t
Before(h, t) == CHOOSE i \in 1..Len(h) : h[i].t - t <= Half /\ (i = Len(h) \/ h[i + 1].t - t > Half)
OnSample(h, t) == Size(h[Before(h, t)].t - t) <= Half
\* the input at t, between its neighbours
At(h, t) ==
    LET i == Before(h, t) d == h[i + 1].t - h[i].t l == t - h[i].t
    IN [t |-> t, a |-> Near(h[i].a * (d - l) + h[i + 1].a * l, d), w |-> Near(h[i].w * (d - l) + h[i + 1].w * l, d)]
Left(h, t) == SubSeq(h, 1, Before(h, t)) \o (IF OnSample(h, t) THEN <<>> ELSE <<At(h, t)>>)
Right(h, t) == <<At(h, t)>> \o SubSeq(h, Before(h, t) + 1, Len(h))
\* samples less than a quantum apart would come of it: may be refused
TooClose(h, t) == h[Before(h, t) + 1].t - t < Quantum \/ (~OnSample(h, t) /\ t - h[Before(h, t)].t < Quantum)

(* What is accumulated, from bias b = [a, w] and noise r = [a, w]; times in   *)
(* milliseconds, doubled where averages of two samples are summed.            *)
Ms(h, i) == Near(h[i].t, 1000) - Near(h[i - 1].t, 1000)
Zero == [b2 |-> 0, al2 |-> 0, ang2 |-> 0, caa |-> 0, cab |-> 0, cbb |-> 0, cgg |-> 0, ja |-> 0, jb |-> 0, jg |-> 0]
Add(s, x, y, dt, b, r) ==
    [al2 |-> s.al2 + s.b2 * dt, b2 |-> s.b2 + (x.a + y.a - 2 * b.a) * dt, ang2 |-> s.ang2 + (x.w + y.w - 2 * b.w) * dt,
     caa |-> s.caa + 2 * dt * s.cab + dt * dt * s.cbb, cab |-> s.cab + dt * s.cbb, cbb |-> s.cbb + r.a * dt * dt, cgg |-> s.cgg + r.w * dt * dt,
     ja |-> s.ja + dt * s.jb, jb |-> s.jb - dt, jg |-> s.jg - dt]
Sum(h, b, r) == FoldLeft(LAMBDA s, i : Add(s, h[i - 1], h[i], Ms(h, i), b, r), Zero, [i \in 1..(Len(h) - 1) |-> i + 1])
\* the end of the interval from rest position with velocity v, under gravity
Span(h) == Near(End(h), 1000) - Near(Start(h), 1000)
EndZ(h, s, v) == 2000 * v * Span(h) + s.al2 + 588 * Span(h) * Span(h) + (399 * Span(h) * Span(h)) \div 1000
EndV(h, s, v) == 2000 * v + s.b2 + (1176798 * Span(h)) \div 1000
=============================================================================
