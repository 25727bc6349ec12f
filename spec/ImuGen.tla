------------------------------- MODULE ImuGen -------------------------------
(* Abstract histories: samples onto the last interval, cuts of an interval on *)
(* a sample, just beside one, or between two.                                 *)
EXTENDS Integers, Sequences, TLC
CONSTANT Depth
VARIABLES s, n, m
Init == s = <<>> /\ n = 1 /\ m = 0
\* n: intervals, m: operations
Next == /\ m < Depth /\ m' = m + 1
        /\ \/ \E g \in {"short", "long"} : s' = s \o <<"sample", g>> /\ n' = n
           \/ m > 1 /\ n < 4 /\ n' = n + 1 /\ \E k \in 1..n : \E p \in {"on", "beside", "between"} : s' = s \o <<"cut", ToString(k), p>>
        /\ (m' = Depth => PrintT(<<"GEN", "new">> \o s'))
Spec == Init /\ [][Next]_<<s, n, m>>
=============================================================================
