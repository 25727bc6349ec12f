------------------------------ MODULE MotionMC ------------------------------
(* The exact motions obey the laws that the library is expected to obey:      *)
(* two registers are composed with motions of a generating set.               *)
EXTENDS Motion, TLC
CONSTANTS Depth
VARIABLES a, b, n
Half == {<<1, 0, 1>>, <<0, 1, 1>>, <<4, 3, 5>>, <<3, 4, 5>>, <<0, -1, 1>>, <<-1, 0, 1>>}
Axes == {<<<<1, 0, 0>>, 1>>, <<<<0, 1, 0>>, 1>>, <<<<1, 2, 2>>, 3>>}
Quats == {<<<<1, 0, 0, 0>>, 1>>, <<<<1, 1, 1, 1>>, 2>>, <<<<1, -1, 1, 1>>, 2>>, <<<<0, 0, 1, 0>>, 1>>,
          <<<<2, 2, 1, 0>>, 3>>, <<<<1, 2, 2, 4>>, 5>>, <<<<0, 3, 0, -4>>, 5>>}
Shifts == {<<<<0, 0, 0>>, 1>>, <<<<1, -2, 3>>, 2>>, <<<<0, 5, 1>>, 3>>}
Builders == {Motion(Rot(q[1], q[2]), s[1], s[2]) : q \in Quats, s \in Shifts}
Points == {Vec(<<1, 0, 0>>, 1), Vec(<<0, 2, 0>>, 1), Vec(<<1, -1, 3>>, 2)}
Small == a.r.n <= 15 /\ b.r.n <= 15 /\ a.x.d <= 500 /\ b.x.d <= 500
Init == a = None /\ b = None /\ n = 0
Next == /\ n < Depth /\ n' = n + 1 /\ Small
        /\ \/ \E m \in Builders : b' = m /\ a' = a
           \/ a' = MMul(a, b) /\ b' = b
           \/ a' = MMul(b, a) /\ b' = b
           \/ a' = MInv(a) /\ b' = b
           \/ a' = MMul(a, a) /\ b' = b
Spec == Init /\ [][Next]_<<a, b, n>>
Unit == \A m \in {a, b} : Norm2(m.r.q) = m.r.n * m.r.n
Group == Small => /\ SameMotion(MMul(a, MInv(a)), None) /\ SameMotion(MMul(MInv(a), a), None)
                  /\ SameMotion(MMul(a, None), a) /\ SameMotion(MMul(None, a), a)
                  /\ SameMotion(MInv(MMul(a, b)), MMul(MInv(b), MInv(a)))
Acts == Small => \A p \in Points :
           /\ Active(MMul(a, b), p) = Active(a, Active(b, p))
           /\ Passive(MMul(a, b), p) = Passive(b, Passive(a, p))
           /\ Passive(a, Active(a, p)) = p /\ Active(MInv(a), p) = Passive(a, p)
\* distances and handedness are kept
Rigid == LET i == Turn(a.r, <<1, 0, 0>>) j == Turn(a.r, <<0, 1, 0>>) k == Turn(a.r, <<0, 0, 1>>) nn == a.r.n * a.r.n
         IN a.r.n <= 30 => /\ Dot(i, i) = nn * nn /\ Dot(i, j) = 0 /\ Dot(j, k) = 0 /\ Dot(j, j) = nn * nn
                           /\ Cross(i, j) = Times(nn, k)
\* the eight elements determine the motion: translation = 2 (dual) (real)^*
Elements == (a.r.n <= 15 /\ a.x.d <= 30) => Raw(Dual(a), RInv(a.r).q) = <<0>> \o Times(a.r.n * a.r.n, a.x.t)
ASSUME \* screws about one axis form a one-parameter group, and their translation moves along with them
    \A k \in Axes : \A e \in Half : \A f \in Half :
        LET q == About(k[1], k[2], e[1], e[2], e[3]) p == About(k[1], k[2], f[1], f[2], f[3])
        IN RMul(q, p) = Rot(<<(e[1] * f[1] - e[2] * f[2]) * k[2]>> \o Times(e[1] * f[2] + e[2] * f[1], k[1]), e[3] * f[3] * k[2])
ASSUME
    \A e \in Half : LET S(x) == Screw(<<1, 2, 2>>, 3, x[1], x[2], x[3], 0, <<2, -2, 1>>, 1) IN
        /\ SameMotion(MInv(S(e)), Screw(<<1, 2, 2>>, 3, e[1], -e[2], e[3], 0, <<2, -2, 1>>, 1))
        \* the centre of the turn, k x u, stays where it is
        /\ LET c == Vec(Cross(<<1, 2, 2>>, <<2, -2, 1>>), 3) IN Active(S(e), c) = c
ASSUME \* yaw, pitch and roll turn the axes one after another
    \A e \in Half : \A f \in Half :
        /\ Euler(e, <<1, 0, 1>>, <<1, 0, 1>>) = About(<<1, 0, 0>>, 1, e[1], e[2], e[3])
        /\ Turned(Euler(<<1, 0, 1>>, e, f), Vec(<<0, 1, 0>>, 1)) = Turned(About(<<0, 0, 1>>, 1, f[1], f[2], f[3]), Vec(<<0, 1, 0>>, 1))
ASSUME \* the shortest rotation between two directions
    \A q \in {r \in Quats : r[1][2] = 0} :
        LET v == TurnBack(Rot(q[1], q[2]), <<1, 0, 0>>) IN
        \A s \in 1..100 : s * s = 2 * q[2] * q[2] * (q[2] * q[2] + v[1]) =>
            Turned(RInv(Between(<<1, 0, 0>>, 1, v, q[2] * q[2], s)), Vec(<<1, 0, 0>>, 1)) = Vec(v, q[2] * q[2])
=============================================================================
