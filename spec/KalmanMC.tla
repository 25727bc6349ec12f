------------------------------ MODULE KalmanMC ------------------------------
(* The equations of Kalman on all small systems: two states, one or two       *)
(* measurements, exact integers.                                              *)
EXTENDS Kalman
CONSTANTS Bound
VARIABLES kind, P, H, r
I == -Bound..Bound
Mats == [1..2 -> [1..2 -> I]]
Covs == {m \in [1..2 -> [1..2 -> -Bound..2 * Bound]] : m[1][2] = m[2][1] /\ m[1][1] >= 0 /\ m[2][2] >= 0 /\ m[1][1] * m[2][2] >= m[1][2] * m[2][1]}
\* a covariance is chosen, then the matrix H of two measurements or of the dynamics
Init == kind = "chosen" /\ P \in Covs /\ H = Ident(2) /\ r = <<1, 1>>
Next == kind = "chosen" /\ kind' \in {"update", "propagate"} /\ H' \in Mats /\ r' \in [1..2 -> 1..Bound] /\ P' = P
Spec == Init /\ [][Next]_<<kind, P, H, r>>
Det(m) == m[1][1] * m[2][2] - m[1][2] * m[2][1]
Adj(m) == <<<<m[2][2], -m[1][2]>>, <<-m[2][1], m[1][1]>>>>
PSD(m) == m[1][2] = m[2][1] /\ m[1][1] >= 0 /\ m[2][2] >= 0 /\ Det(m) >= 0
\* one scalar measurement with row hh and variance rr: denominator and scaled covariance
One(m, hh, rr) ==
    LET T == PHT(m, <<hh>>, 0) S == Innovation(<<hh>>, T, <<rr>>, 0) D == S[1][1]
    IN [d |-> D, m |-> UpdatedD(m, T, Tr(T, 1), 2, D, 0)]
\* both at once
Both(m) ==
    LET T == PHT(m, H, 0) S == Innovation(H, T, r, 0) D == Det(S)
        G == MulT(Adj(S), T, 0)
    IN [d |-> D, m |-> UpdatedD(m, T, G, 2, D, 0), sound |-> SolvesAll(S, G, 2, D, T, 0)]
\* the given solutions of the linear systems exist and determine the result
Certified == kind = "update" => Both(P).sound
\* an update keeps a covariance a covariance and never makes it larger
Shrinks == kind = "update" => LET b == Both(P) IN b.d > 0 /\ PSD(b.m) /\ PSD(Minus(Scale(b.d, P, 0), b.m, 0))
\* two independent measurements one after the other are the same as both together:
\* m2 / (d1 d2') = both.m / both.d
Sequential == kind = "update" =>
    LET a == One(P, H[1], r[1])
        \* the second one on the scaled covariance a.m (scale a.d)
        b == One(a.m, H[2], r[2] * a.d)
        c == Both(P)
    IN \A i \in 1..2 : \A j \in 1..2 : b.m[i][j] * c.d = c.m[i][j] * (b.d * a.d)
\* a measurement that sees nothing changes nothing; working modulo a prime agrees with integers
Blind == kind = "chosen" => LET a == One(P, <<0, 0>>, r[1]) IN a.m = Scale(a.d, P, 0)
Modulo == kind = "update" => LET a == Both(P) p == 101
              T == PHT(Scale(1, P, p), Scale(1, H, p), p)
              S == Innovation(H, T, r, p)
          IN UpdatedD(P, T, Scale(1, MulT(Adj(Innovation(H, PHT(P, H, 0), r, 0)), PHT(P, H, 0), 0), p), 2, a.d, p) = Scale(1, a.m, p)
\* propagation keeps a covariance a covariance; without dynamics only the noise is added
Propagates == kind = "propagate" =>
    LET A8 == Transition8(H, 1, 2, 0) B8 == Input8(H, <<<<1, -1>>, <<0, 2>>>>, 1, 2, 2, 0) Q == Propagated64(P, A8, B8, r, r, 0)
    IN Q[1][2] = Q[2][1] /\ Q[1][1] > 0 /\ Q[2][2] > 0
Still == kind = "chosen" => LET Z == Scale(0, P, 0) IN Propagated64(P, Transition8(Z, 3, 2, 0), Input8(Z, Z, 3, 2, 2, 0), r, r, 0) = Scale(64, Plus(P, Diag(r, 0), 0), 0)
=============================================================================
