---------------------------- MODULE NavGpsTrace ----------------------------
(* Recorded feeding of navigation words must follow NavGps.                 *)
EXTENDS NavGps, TLC, Json, IOUtils, Trace
VARIABLES got, l
Of(s) == IF s \in DOMAIN got THEN got[s] ELSE GpsNew
FieldsRight(last, e) ==
    /\ \A k \in 1..3 : \A name \in DOMAIN Layout[k] : e.eph[name] = Broadcast(last, k, name)
    /\ e.eph.iodc = <<0, Iodc(last[1])>>
    /\ e.eph.toe = Instant(last, 16 * Num(Broadcast(last, 2, "toes")))
    /\ e.eph.toc = Instant(last, 16 * Num(Broadcast(last, 1, "tocs")))
    /\ e.eph.sat = e.s /\ e.eph.gnss
Step(e) ==
    \/ e.op = "new" /\ got' = << >>
    \/ e.op = "gps"
       /\ \E last \in { IF Usable(e.b) THEN GpsTake(Of(e.s), Kind(e.b), e.b) ELSE Of(e.s) } :
            \E ready \in { Usable(e.b) /\ GpsReady(last, Issue) } :
              /\ e.ok = ready
              /\ TRUE = (e.ok => FieldsRight(last, e))
              /\ got' = [x \in DOMAIN got \cup {e.s} |-> IF x = e.s THEN IF ready THEN GpsNew ELSE last ELSE got[x]]
Init == l = 1 /\ got = << >>
Next == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_<<got, l>>
=============================================================================
