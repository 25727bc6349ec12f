------------------------------ MODULE OrbitMC -------------------------------
(* The exact arcs obey Kepler's laws: a satellite goes round shapes and       *)
(* orientations; its distance, areal rate and energy are what they should be. *)
EXTENDS Orbit, TLC
VARIABLES o, n
CONSTANT Steps
None2 == <<1, 0, 1>>
Angles == {<<1, 0, 1>>, <<0, 1, 1>>, <<4, 3, 5>>, <<3, -4, 5>>, <<4, -3, 5>>}
Anomalies == {<<1, 0, 1>>, <<0, 1, 1>>, <<-1, 0, 1>>, <<0, -1, 1>>, <<4, 3, 5>>, <<-3, 4, 5>>, <<3, -4, 5>>, <<-4, -3, 5>>}
Shapes == {<<0, 1, 1>>, <<7, 25, 24>>, <<5, 13, 12>>}
Init == /\ n = 0
        /\ o = [en |-> 0, ed |-> 1, ew |-> 1, E |-> None2, node |-> None2, inc |-> None2, peri |-> None2, du |-> None2, di |-> None2,
                kap |-> <<0, 1>>, spin |-> 0, tilt |-> 0]
Next == /\ n < Steps /\ n' = n + 1
        /\ \/ \E s \in Shapes : o' = [o EXCEPT !.en = s[1], !.ed = s[2], !.ew = s[3]]
           \/ \E a \in Anomalies : o' = [o EXCEPT !.E = a]
           \/ \E f \in {"node", "inc", "peri"}, a \in Angles : o' = [o EXCEPT ![f] = a]
           \/ \E a \in Angles : o' = [o EXCEPT !.du = a]
Spec == Init /\ [][Next]_<<o, n>>
Small == Attitude(o).n <= 25
Norm(x) == <<Dot(x.t, x.t), x.d>>
\* all in the plane, where numbers are small; the attitude keeps lengths (Motion)
Shape == HasShape(o)
Distance == LET p == InPlane(o) IN Dot(p.t, p.t) * o.ed * o.E[3] * o.ed * o.E[3] = p.d * p.d * Radial(o) * Radial(o)
Areas == LET c == CrossOf(InPlane(o), InPlaneRate(o)) IN c.t[1] = 0 /\ c.t[2] = 0 /\ c.t[3] * o.ed = o.ew * c.d
VisViva == LET v == InPlaneRate(o) IN Dot(v.t, v.t) * Radial(o) = v.d * v.d * (o.ed * o.E[3] + o.en * o.E[1])
\* the ellipse: distances to the two foci add up to 2
Ellipse == LET p == InPlane(o) f == Add(p, Vec(<<2 * o.en, 0, 0>>, o.ed)) IN
    Dot(f.t, f.t) * (o.ed * o.E[3]) * (o.ed * o.E[3]) = f.d * f.d * (o.ed * o.E[3] + o.en * o.E[1]) * (o.ed * o.E[3] + o.en * o.E[1])
\* the highest latitude is the inclination: z = r sin(u) sin(i)
Latitude == (o.inc = <<1, 0, 1>>) => Position(o).t[3] = 0
\* at perigee the place is the perigee, which lies w from the node
Perigee == (o.E = <<1, 0, 1>> /\ o.du = None2 /\ o.peri = None2) => Position(o) = Turned(Z(o.node), Vec(<<o.ed - o.en, 0, 0>>, o.ed))
\* correcting the argument is turning the perigee
Argument == (o.peri = None2 /\ Small) => Position(o) = Position([o EXCEPT !.peri = o.du, !.du = None2])
Stretch == \A k \in {<<1, 10>>, <<-1, 4>>} : LET q == Stretched([o EXCEPT !.kap = k]) p == InPlane(o) d == o.ed * o.E[3] r == Radial(o) * k[2] + k[1] * d IN
    /\ Cross(q.t, p.t) = <<0, 0, 0>>
    \* r = 1 - e cos E + kap
    /\ \A c \in {1, 2} : p.t[c] # 0 => Vec(<<q.t[c], 0, 0>>, q.d) = Vec(<<p.t[c] * r, 0, 0>>, p.d * Radial(o) * k[2])
=============================================================================
