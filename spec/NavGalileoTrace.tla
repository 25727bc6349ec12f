-------------------------- MODULE NavGalileoTrace --------------------------
(* Recorded feeding of navigation pages must follow NavGalileo.             *)
EXTENDS NavGalileo, TLC, Json, IOUtils, Trace
VARIABLES got, l
Of(s) == IF s \in DOMAIN got THEN got[s] ELSE GalNew
FieldsRight(s, e) ==
    /\ \A k \in 0..5 : \A name \in DOMAIN Layout[k] : e.eph[name] = Broadcast(s, k, name)
    /\ e.eph.iode = <<0, Iod(s.last[1]) % 256>> /\ e.eph.iodc = <<0, Iod(s.last[1])>>
    /\ e.eph.week = <<0, RefWeek(s)>>
    /\ e.eph.toe = Instant(s, 60 * Num(Broadcast(s, 1, "toes")))
    /\ e.eph.toc = Instant(s, 60 * Num(Broadcast(s, 4, "tocs")))
    /\ e.eph.sat = e.s /\ e.eph.gnss
Step(e) ==
    \/ e.op = "new" /\ got' = << >>
    \/ e.op = "gal"
       /\ \E use \in { Usable(e.b, e.s) } : \E s \in { IF use THEN GalTake(Of(e.s), PageKind(e.b), e.b) ELSE Of(e.s) } :
            /\ TRUE = (e.ok => use /\ GalMay(s, Iod) /\ FieldsRight(s, e))
            /\ TRUE = (~e.ok => ~(use /\ GalMust(s, Iod)))
            /\ got' = [x \in DOMAIN got \cup {e.s} |-> IF x /= e.s THEN got[x] ELSE IF e.ok THEN GalDelivered(s) ELSE s]
Init == l = 1 /\ got = << >>
Next == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_<<got, l>>
=============================================================================
