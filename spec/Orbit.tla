------------------------------- MODULE Orbit --------------------------------
(* Satellites on Keplerian arcs, exactly. Lengths in units of the semi-major  *)
(* axis A, times in units of 1/n (n the mean motion). The shape: eccentricity *)
(* en/ed with sqrt(1 - e^2) = ew/ed. The eccentric anomaly has cosine a/h and *)
(* sine b/h. Orientation: half angles, each with cosine a/h and sine b/h.     *)
(* du, di, kap: harmonic corrections of the argument of latitude, of the      *)
(* inclination (half angles) and of the radius. spin: the rate of the node in *)
(* the turning frame of the earth; tilt: the rate of the inclination.         *)
EXTENDS Motion
Z(g) == About(<<0, 0, 1>>, 1, g[1], g[2], g[3])
X(g) == About(<<1, 0, 0>>, 1, g[1], g[2], g[3])
HasShape(o) == o.en * o.en + o.ew * o.ew = o.ed * o.ed
\* ed h (1 - e cos E)
Radial(o) == o.ed * o.E[3] - o.en * o.E[1]
\* the place in the plane of the orbit, from the focus along the perigee
InPlane(o) == Vec(<<o.ed * o.E[1] - o.en * o.E[3], o.ew * o.E[2], 0>>, o.ed * o.E[3])
\* ... and its rate of change: dE/dM = 1/(1 - e cos E)
InPlaneRate(o) == Vec(<<-o.ed * o.E[2], o.ew * o.E[1], 0>>, Radial(o))
\* the radius grows by kap = k[1]/k[2], in the direction of the place
Stretched(o) == LET p == InPlane(o) s == <<Radial(o) * o.kap[2] + o.kap[1] * o.ed * o.E[3], Radial(o) * o.kap[2]>>
                    g == Gcd(Abs(s[1]), s[2]) y == Vec(Times(s[1] \div g, p.t), p.d)
                IN Vec(y.t, y.d * (s[2] \div g))
Attitude(o) == RMul(RMul(Z(o.node), RMul(X(o.inc), X(o.di))), RMul(Z(o.peri), Z(o.du)))
Position(o) == Turned(Attitude(o), Stretched(o))
\* half(x, k): k/2 x
HalfTimes(k, x) == Vec(Times(k, x.t), 2 * x.d)
CrossOf(axis, x) == Vec(Cross(axis.t, x.t), axis.d * x.d)
\* only without corrections
Velocity(o) == Add(Turned(Attitude(o), InPlaneRate(o)),
                   Add(HalfTimes(o.spin, CrossOf(Vec(<<0, 0, 1>>, 1), Position(o))),
                       HalfTimes(o.tilt, CrossOf(Turned(Z(o.node), Vec(<<1, 0, 0>>, 1)), Position(o)))))
\* ---- clock, in units of 0.1 ps: af0 in ns, af1 in 1e-12, af2 in 1e-18, at s seconds from its own reference time
Poly(af0, af1, af2, s) == 10000 * af0 + 10 * af1 * s + (af2 * s * s) \div 100000
\* drift in 1e-15
Drift(af1, af2, s) == 1000 * af1 + (2 * af2 * s) \div 1000
\* - 2 sqrt(mu) sqrtA / c^2 e sin E
Relativity(sqrta, o) == -(((sqrta * 4443 - (sqrta * 192) \div 1000) \div o.ed) * o.en * o.E[2]) \div o.E[3]
\* ---- numerically propagated satellites: what is seen of a state is m + u/10^6
Close(x, y, tol) == \A i \in 1..3 : LET d == x.m[i] - y.m[i] IN Abs(d) <= 100 /\ Abs(d * 1000000 + x.u[i] - y.u[i]) <= tol
Image(sym, x) ==
    LET F(v) == CASE sym = "quarter" -> <<-v[2], v[1], v[3]>>
                  [] sym = "mirror" -> <<v[1], v[2], -v[3]>>
                  [] sym = "half" -> <<-v[1], -v[2], v[3]>>
                  [] OTHER -> v
    IN [m |-> F(x.m), u |-> F(x.u)]
=============================================================================
