----------------------------- MODULE RegistryGen -----------------------------
(* Enumerates arrivals into a table that is nearly full.                      *)
EXTENDS Registry, TLC
CONSTANTS Depth, Prefill, Choice
VARIABLES hist
S(x) == ToString(x)
Cmd(s, e, id) == "reg C " \o S(s) \o " " \o S(e) \o " " \o S(id)
Init == /\ reg = (0 :> [k \in 1..Prefill |-> [sat |-> k, alm |-> Keep(Empty, 0, k)]])
        /\ hist = <<"new">> \o [k \in 1..Prefill |-> Cmd(k, 0, k)]
Next == \E s \in Choice, e \in {0, 3600000} :
    /\ Arrive(0, s, e, Len(hist)) /\ hist' = Append(hist, Cmd(s, e, Len(hist)))
Spec == Init /\ [][Next]_<<hist, reg>>
Short == Len(hist) < Depth + Prefill + 1
Emit == Len(hist) = Depth + Prefill + 1 => PrintT(<<"GEN">> \o hist)
=============================================================================
