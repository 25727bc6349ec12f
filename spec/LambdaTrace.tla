---------------------------- MODULE LambdaTrace ----------------------------
(* Recorded integer ambiguity resolutions. The problem is one of Lattice in   *)
(* the coordinates y = v z (v unimodular, vi its inverse); results are given  *)
(* relative to the integer shift of the estimate. hint: some distinct integer *)
(* vectors y, which only bound what has to be looked at.                      *)
EXTENDS Lattice, TLC, Json, IOUtils, Trace
VARIABLE l
Problem(e) == [n |-> e.n, d |-> e.problem.d, u |-> e.problem.u, p |-> e.problem.p, m |-> e.problem.m, f |-> e.problem.f]
Sound(e) == Product(e.problem.v, e.problem.vi) = Identity(e.n) /\ Cardinality(ToSet(e.problem.hint)) = Len(e.problem.hint) /\ Len(e.problem.hint) >= e.k
Bound(e) == LET q == Problem(e) IN FoldLeft(LAMBDA a, h : IF Cost(q, h) > a THEN Cost(q, h) ELSE a, 0, e.problem.hint)
Abs(x) == IF x < 0 THEN -x ELSE x
Resolved(e) ==
    \A q \in {Problem(e)} : \A S \in {Within(q, Bound(e))} : \A best \in {Least(S, e.k)} :
       /\ Sound(e)
       \* the vector returned is a best one
       /\ Cost(q, Times(e.problem.v, e.fixed)) = best[1]
       \* ratio (times 4096): the smallest cost over the second smallest
       /\ Abs(e.ratio * best[2] - 4096 * best[1]) <= best[2]
       \* all candidates of the search, best first
       /\ e.searched => /\ Len(e.cands) = e.k /\ Cardinality(ToSet(e.cands)) = e.k
                        /\ \A j \in 1..e.k : Cost(q, Times(e.problem.v, e.cands[j])) = best[j] /\ e.norms[j] = best[j]
Step(e) == TRUE = (e.op = "new" \/ (e.op = "lambda" /\ Resolved(e)))
Init == l = 1
Next == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
=============================================================================
