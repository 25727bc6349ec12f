------------------------------- MODULE PidGen -------------------------------
(* Abstract histories of a controller: the error's sign and size, whether the *)
(* integrator is on, and how long the step is.                                *)
EXTENDS Integers, Sequences, TLC
CONSTANT Depth
VARIABLE s
Init == s = <<>>
Next == \E k \in {"big", "small", "zero", "-small", "-big"} : \E on \in {"on", "off"} : \E t \in {"short", "long"} :
        Len(s) < 3 * Depth /\ (t = "short" => k \in {"big", "-small"}) /\ s' = s \o <<k, on, t>>
        /\ (Len(s') = 3 * Depth => PrintT(<<"GEN", "new">> \o s'))
Spec == Init /\ [][Next]_s
=============================================================================
