------------------------------ MODULE Lattice ------------------------------
(* Integer least squares, exactly. A problem is                               *)
(*   n        the dimension                                                   *)
(*   d, u, p  the inverse covariance: sum over i of d[i] (u[i] . x / p)^2,    *)
(*            u upper triangular with p on the diagonal, d positive           *)
(*   f, m     the estimate f / m                                              *)
(* and Cost is the squared distance of an integer vector from it, times       *)
(* (m p)^2: everything is an integer.                                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
\* the distance of z[i] from its centre given the ones after it, times m p (z may hold only entries i..n)
Off(q, z, i) == FoldLeft(LAMBDA s, j : s + q.u[i][j] * (q.m * z[j] - q.f[j]), 0, [k \in 1..q.n - i + 1 |-> i + k - 1])
Cost(q, z) == FoldLeft(LAMBDA s, i : s + q.d[i] * Off(q, z, i) * Off(q, z, i), 0, [i \in 1..q.n |-> i])
RECURSIVE Root(_, _, _)
Root(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET k == (lo + hi) \div 2 IN IF k * k <= x THEN Root(x, k, hi) ELSE Root(x, lo, k)
Sqrt(x) == IF x >= 0 THEN Root(x, 0, 46340) ELSE -1
CeilDiv(a, b) == -((-a) \div b)
\* all z[i..n] (with their cost) that extend the ones in T at a cost of at most c
Extend(q, i, T, c) == UNION {
    LET s == Off(q, [t.z EXCEPT ![i] = 0], i)           \* z[i] = 0: (m p) z[i] + s
        r == Sqrt((c - t.c) \div q.d[i])
        w == q.m * q.p
    IN {[z |-> [t.z EXCEPT ![i] = k], c |-> t.c + q.d[i] * (w * k + s) * (w * k + s)] : k \in CeilDiv(-r - s, w)..(r - s) \div w}
    : t \in T}
\* every integer vector of a cost of at most c, with its cost
Within(q, c) == FoldLeft(LAMBDA T, i : Extend(q, i, T, c), {[z |-> [k \in 1..q.n |-> 0], c |-> 0]}, [k \in 1..q.n |-> q.n + 1 - k])
\* the k smallest costs among a set of vectors with their costs, in order
RECURSIVE Least(_, _)
Least(S, k) == IF k = 0 \/ S = {} THEN <<>>
               ELSE LET e == CHOOSE e \in S : \A o \in S : e.c <= o.c IN <<e.c>> \o Least(S \ {e}, k - 1)
Times(M, z) == [i \in 1..Len(M) |-> FoldLeft(LAMBDA s, j : s + M[i][j] * z[j], 0, [j \in 1..Len(z) |-> j])]
Identity(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
Column(M, j) == [i \in 1..Len(M) |-> M[i][j]]
Product(A, B) == LET n == Len(A) IN [i \in 1..n |-> [j \in 1..n |-> FoldLeft(LAMBDA s, k : s + A[i][k] * B[k][j], 0, [k \in 1..n |-> k])]]
=============================================================================
