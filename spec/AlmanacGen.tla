----------------------------- MODULE AlmanacGen -----------------------------
(* Enumerates the orders in which ephemerides of two satellites can arrive    *)
(* and the queries in between, as commands for the real code.                 *)
EXTENDS Almanac, TLC
CONSTANTS EpochsMs, InstantsMs, Depth
VARIABLES hist, alm
Sats == {1, 2}
S(x) == ToString(x)
Init == hist = <<"new">> /\ alm = [s \in Sats |-> Empty]
Id == Len(hist)
\* arrivals in every order; every instant is then asked about (see the check), so that the behaviour
\* is determined by the arrivals
Next == \E s \in Sats, e \in EpochsMs :
    /\ hist' = Append(hist, "add C " \o S(s) \o " " \o S(e) \o " " \o S(Id))
    /\ alm' = [alm EXCEPT ![s] = Keep(@, e, Id)]
Spec == Init /\ [][Next]_<<hist, alm>>
Short == Len(hist) < Depth + 1
Emit == Len(hist) = Depth + 1 => PrintT(<<"GEN">> \o hist)
=============================================================================
