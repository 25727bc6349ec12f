------------------------------- MODULE Kalman -------------------------------
(* The dense filter equations every generated filter has to reproduce. All    *)
(* quantities are integers: times are counted in half seconds, states in      *)
(* units of 1/32, residuals in 1/64, and matrices that contain fractions are  *)
(* given together with a common denominator. p = 0: plain integers; p > 0:    *)
(* everything is computed modulo p (so that larger systems fit 32 bits).      *)
(* A matrix is a sequence of rows.                                            *)
EXTENDS Integers, Sequences, SequencesExt, TLC
Red(x, p) == IF p = 0 THEN x ELSE x % p
Upto(n) == [k \in 1..n |-> k]
Rows(a) == Len(a)
Cols(a) == Len(a[1])
\* entries of a flat list, row by row
Unflat(s, r, c, p) == TLCEval([i \in 1..r |-> [j \in 1..c |-> Red(s[(i - 1) * c + j], p)]])
RedSeq(s, p) == TLCEval([i \in 1..Len(s) |-> Red(s[i], p)])
Tr(a, c) == TLCEval([j \in 1..c |-> [i \in 1..Len(a) |-> a[i][j]]])
Dot(x, y, p) == FoldLeft(LAMBDA acc, k : Red(acc + x[k] * y[k], p), 0, Upto(Len(x)))
\* a times the transpose of b: rows with rows
MulT(a, b, p) == TLCEval([i \in 1..Len(a) |-> [j \in 1..Len(b) |-> Dot(a[i], b[j], p)]])
Apply(a, x, p) == TLCEval([i \in 1..Len(a) |-> Dot(a[i], x, p)])
Plus(a, b, p) == TLCEval([i \in 1..Len(a) |-> [j \in 1..Len(a[i]) |-> Red(a[i][j] + b[i][j], p)]])
Minus(a, b, p) == TLCEval([i \in 1..Len(a) |-> [j \in 1..Len(a[i]) |-> Red(a[i][j] - b[i][j], p)]])
Scale(k, a, p) == TLCEval([i \in 1..Len(a) |-> [j \in 1..Len(a[i]) |-> Red(k * a[i][j], p)]])
Diag(q, p) == TLCEval([i \in 1..Len(q) |-> [j \in 1..Len(q) |-> IF i = j THEN Red(q[i], p) ELSE 0]])
Ident(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]])
\* columns of a times the diagonal q
TimesDiag(a, q, p) == TLCEval([i \in 1..Len(a) |-> [j \in 1..Len(q) |-> Red(a[i][j] * q[j], p)]])

(* Propagation over dt = h/2. Eight times the transition matrix               *)
(* I + A dt + A A dt dt / 2 and eight times the input matrix (I + A dt/2) B dt*)
Transition8(A, h, n, p) ==
    Plus(Plus(Scale(8, Ident(n), p), Scale(4 * h, A, p), p), Scale(h * h, MulT(A, Tr(A, n), p), p), p)
Input8(A, B, h, n, nu, p) ==
    MulT(Scale(h, Plus(Scale(4, Ident(n), p), Scale(h, A, p), p), p), Tr(B, nu), p)
\* sixty-four times the propagated covariance
Propagated64(P, A8, B8, Qu, Qx, p) ==
    Plus(Plus(MulT(MulT(A8, P, p), A8, p), MulT(TimesDiag(B8, Qu, p), B8, p), p), Diag(RedSeq([k \in DOMAIN Qx |-> 64 * Qx[k]], p), p), p)

(* Update. PHT = P Hᵀ and S = H P Hᵀ + R. The solutions of S g = D res and    *)
(* S G = D PHTᵀ are given (D any common denominator); then D dx = PHT g and   *)
(* D P⁺ = D P - PHT G.                                                        *)
PHT(P, H, p) == MulT(P, H, p)
Innovation(H, T, r, p) == Plus(MulT(H, Tr(T, Len(H)), p), Diag(r, p), p)
Solves(S, x, D, b, p) == Apply(S, x, p) = RedSeq([k \in DOMAIN b |-> Red(D, p) * Red(b[k], p)], p)
SolvesAll(S, G, n, D, T, p) == MulT(S, Tr(G, n), p) = Scale(Red(D, p), Tr(T, Len(S)), p)
DeltaD(T, g, p) == Apply(T, g, p)
UpdatedD(P, T, G, n, D, p) == Minus(Scale(Red(D, p), P, p), MulT(T, Tr(G, n), p), p)

(* Gate: a residual is rejected when its squared Mahalanobis distance exceeds *)
(* the chi-square value of the declared probability with one degree of        *)
(* freedom less than the (largest) measurement. Values in hundredths, for the *)
(* probabilities 50, 90, 95 and 99 percent.                                   *)
ChiSquare ==
    [q \in {50, 90, 95, 99} |->
        CASE q = 50 -> <<45, 139, 237, 336, 435, 535, 635>>
          [] q = 90 -> <<271, 461, 625, 778, 924, 1064, 1202>>
          [] q = 95 -> <<384, 599, 781, 949, 1107, 1259, 1407>>
          [] q = 99 -> <<663, 921, 1134, 1328, 1509, 1681, 1848>>]
\* res in 1/64; g solves S g = D res in plain integers
Mahal4096(res, g, D) == Dot(res, g, 0) \div D
Gated(prob, dof, res, g, D) == prob < 100 /\ Mahal4096(res, g, D) > (ChiSquare[prob][dof] * 4096) \div 100
=============================================================================
