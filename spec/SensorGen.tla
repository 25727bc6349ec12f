------------------------------ MODULE SensorGen -----------------------------
(* Abstract runs: steps smaller than, equal to or larger than a sensor's      *)
(* period, and which queries are made at each.                                *)
EXTENDS Integers, Sequences, TLC
CONSTANT Depth
VARIABLES s, m
Init == s = <<>> /\ m = 0
Next == /\ m < Depth /\ m' = m + 1
        /\ \E g \in {"none", "bit", "less", "period", "more", "far"} : \E q \in {"both", "imu", "gnss", "eph"} : s' = s \o <<g, q>>
        /\ (m' = Depth => PrintT(<<"GEN", "new">> \o s'))
Spec == Init /\ [][Next]_<<s, m>>
=============================================================================
