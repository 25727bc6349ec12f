------------------------------ MODULE Almanac ------------------------------
(* The ephemerides a satellite keeps: for each reference epoch the latest one *)
(* received. Epochs and instants are milliseconds.                            *)
EXTENDS Integers, Sequences, FiniteSets

Keep(alm, epoch, id) == [x \in DOMAIN alm \cup {epoch} |-> IF x = epoch THEN id ELSE alm[x]]
Empty == [x \in {} |-> 0]

Dist(a, b) == IF a < b THEN b - a ELSE a - b
\* what a query at t may be answered from: an epoch that no other one is closer than
ClosestEpochs(alm, t) == {x \in DOMAIN alm : \A y \in DOMAIN alm : Dist(x, t) <= Dist(y, t)}
Answers(alm, t) == {alm[x] : x \in ClosestEpochs(alm, t)}
=============================================================================
