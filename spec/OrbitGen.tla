------------------------------ MODULE OrbitGen ------------------------------
(* Abstract histories: Keplerian states by where on the arc, with which       *)
(* corrections and ages; arcs propagated to and fro, over and over, and their *)
(* images.                                                                    *)
EXTENDS Integers, Sequences, TLC
CONSTANT Depth
VARIABLES s, m
Kep == {"kep"} \X {"perigee", "apogee", "up", "down", "any"} \X {"plain", "u", "r", "i", "all"} \X {"now", "early", "late", "edge", "stale"}
Go == {"go"} \X {"1", "2"} \X {"start", "last"} \X {"0", "p", "pp", "m", "frac"}
Other == {<<"twin", a, "", "">> : a \in {"quarter", "half", "mirror"}} \cup {<<"glo", a, b, "">> : a \in {"free", "pushed"}, b \in {"clock", "plain"}} \cup {<<"kin", "", "", "">>}
Init == s = <<>> /\ m = 0
Next == /\ m < Depth /\ m' = m + 1
        /\ \E o \in Kep \cup Go \cup Other : s' = s \o <<o[1], o[2], o[3], o[4]>>
        /\ (m' = Depth => PrintT(<<"GEN", "new">> \o s'))
Spec == Init /\ [][Next]_<<s, m>>
=============================================================================
