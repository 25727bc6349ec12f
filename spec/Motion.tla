------------------------------- MODULE Motion -------------------------------
(* Rotations and rigid motions, exactly: a rotation is an integer quaternion  *)
(* whose length n is an integer (so that q/n is a unit quaternion), a motion  *)
(* adds a rational translation t/d. The active form turns a point,            *)
(* p -> A(q) p + t/d; the passive form gives the coordinates of a fixed point *)
(* in the moved frame, p -> A(q)^-1 (p - t/d).                                *)
EXTENDS Integers, Sequences, TLC
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
GcdAll(v, m) == CASE Len(v) = 3 -> Gcd(Gcd(Gcd(m, Abs(v[1])), Abs(v[2])), Abs(v[3]))
                  [] Len(v) = 4 -> Gcd(Gcd(Gcd(Gcd(m, Abs(v[1])), Abs(v[2])), Abs(v[3])), Abs(v[4]))
Over(v, g) == TLCEval([i \in DOMAIN v |-> IF v[i] < 0 THEN -(Abs(v[i]) \div g) ELSE v[i] \div g])
Plus(u, v) == TLCEval([i \in DOMAIN u |-> u[i] + v[i]])
Minus(u, v) == TLCEval([i \in DOMAIN u |-> u[i] - v[i]])
Times(s, v) == TLCEval([i \in DOMAIN v |-> s * v[i]])
Neg(v) == Times(-1, v)
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Cross(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
Norm2(q) == q[1] * q[1] + q[2] * q[2] + q[3] * q[3] + q[4] * q[4]
Bar(q) == <<q[2], q[3], q[4]>>
\* ---- rotations: [q, n] with |q| = n
One == [q |-> <<1, 0, 0, 0>>, n |-> 1]
Rot(q, n) == LET g == GcdAll(q, n) IN [q |-> Over(q, g), n |-> n \div g]
Raw(a, b) == <<a[1] * b[1] - a[2] * b[2] - a[3] * b[3] - a[4] * b[4],
               a[1] * b[2] + a[2] * b[1] + a[3] * b[4] - a[4] * b[3],
               a[1] * b[3] - a[2] * b[4] + a[3] * b[1] + a[4] * b[2],
               a[1] * b[4] + a[2] * b[3] - a[3] * b[2] + a[4] * b[1]>>
RMul(r, s) == Rot(Raw(r.q, s.q), r.n * s.n)
RInv(r) == [q |-> <<r.q[1], -r.q[2], -r.q[3], -r.q[4]>>, n |-> r.n]
\* the same rotation: a quaternion and its opposite are
Same(r, s) == r.n = s.n /\ (r.q = s.q \/ r.q = Neg(s.q))
\* n^2 times the image of the integer vector v
Turn(r, v) == LET u == Bar(r.q) w == r.q[1] IN
    Plus(Plus(Times(w * w - Dot(u, u), v), Times(2 * Dot(u, v), u)), Times(2 * w, Cross(u, v)))
TurnBack(r, v) == Turn(RInv(r), v)
\* by the angle whose half has cosine a/h and sine b/h, about axis/m
About(axis, m, a, b, h) == Rot(<<a * m, b * axis[1], b * axis[2], b * axis[3]>>, h * m)
Euler(roll, pitch, yaw) ==
    LET X(e) == About(<<1, 0, 0>>, 1, e[1], e[2], e[3])
        Y(e) == About(<<0, 1, 0>>, 1, e[1], e[2], e[3])
        Z(e) == About(<<0, 0, 1>>, 1, e[1], e[2], e[3])
    IN RMul(Z(yaw), RMul(Y(pitch), X(roll)))
\* the shortest rotation whose passive form takes u/un to v/vn (length s^2 = 2 un vn (un vn + u.v))
Between(u, un, v, vn, s) == LET c == Neg(Cross(u, v)) IN Rot(<<un * vn + Dot(u, v), c[1], c[2], c[3]>>, s)
\* ---- rational vectors and motions: [r, t, d]
Vec(t, d) == LET g == GcdAll(t, d) IN [t |-> Over(t, g), d |-> d \div g]
Add(x, y) == LET g == Gcd(x.d, y.d) IN Vec(Plus(Times(y.d \div g, x.t), Times(x.d \div g, y.t)), (x.d \div g) * y.d)
Turned(r, x) == LET y == Vec(x.t, x.d) IN Vec(Turn(r, y.t), r.n * r.n * y.d)
Negated(x) == [t |-> Neg(x.t), d |-> x.d]
None == [r |-> One, x |-> [t |-> <<0, 0, 0>>, d |-> 1]]
Motion(r, t, d) == [r |-> r, x |-> Vec(t, d)]
MMul(a, b) == [r |-> RMul(a.r, b.r), x |-> Add(a.x, Turned(a.r, b.x))]
MInv(a) == [r |-> RInv(a.r), x |-> Negated(Turned(RInv(a.r), a.x))]
Active(a, p) == Add(a.x, Turned(a.r, p))
Passive(a, p) == Turned(RInv(a.r), Add(p, Negated(a.x)))
SameMotion(a, b) == Same(a.r, b.r) /\ a.x = b.x
\* the screw motion exp(w, v) with w = theta k, k = axis/m, theta as in About, and
\* v = c k + theta u, u perpendicular to k (u/ud): the translation is c k + sin theta u + (1 - cos theta) k x u
Screw(axis, m, a, b, h, c, u, ud) ==
    LET hh == h * h
        s == Vec(Times(2 * a * b, u), hh * ud)
        x == Vec(Times(2 * b * b, Cross(axis, u)), hh * ud * m)
    IN [r |-> About(axis, m, a, b, h), x |-> Add(Vec(Times(c, axis), m), Add(s, x))]
\* the derivative of that rotation applied to u/ud, times theta (side 1: seen from the left, -1: from the right)
Derived(axis, m, a, b, h, u, ud, side) ==
    Add(Vec(Times(2 * a * b, u), h * h * ud), Vec(Times(side * 2 * b * b, Cross(axis, u)), h * h * ud * m))
\* the dual part of the eight elements, 2 n d times it: t q
Dual(a) == Raw(<<0, a.x.t[1], a.x.t[2], a.x.t[3]>>, a.r.q)
\* adjoint: the image of the pair (w, v) of integer vectors
Adjoint(a, w, v) == LET rw == Turned(a.r, Vec(w, 1)) IN
    <<rw, Add(Vec(Cross(a.x.t, rw.t), a.x.d * rw.d), Turned(a.r, Vec(v, 1)))>>
=============================================================================
