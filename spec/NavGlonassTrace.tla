-------------------------- MODULE NavGlonassTrace --------------------------
(* Recorded feeding of navigation strings must follow NavGlonass.           *)
EXTENDS NavGlonass, TLC, Json, IOUtils, Trace
VARIABLES got, l
Of(s) == IF s \in DOMAIN got THEN got[s] ELSE GloNew
FieldsRight(s, e) ==
    /\ \A k \in 1..4 : \A name \in DOMAIN Layout[k] : e.eph[name] = Broadcast(s, k, name)
    /\ e.eph.toe = Toe(s) /\ e.eph.tof = Tof(s)
    /\ e.eph.sat = e.s /\ e.eph.gnss
Step(e) ==
    \/ e.op = "new" /\ got' = << >>
    \/ e.op = "glo"
       /\ \E use \in { Usable(e.b) } : \E s \in { IF use THEN GloTake(Of(e.s), StringNumber(e.b), TimeMark(e.b), e.b) ELSE Of(e.s) } :
            /\ e.ok = (use /\ GloReady(s, StringNumber(e.b)))
            /\ TRUE = (e.ok => FieldsRight(s, e))
            /\ got' = [x \in DOMAIN got \cup {e.s} |-> IF x = e.s THEN s ELSE got[x]]
Init == l = 1 /\ got = << >>
Next == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_<<got, l>>
=============================================================================
