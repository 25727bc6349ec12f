------------------------------ MODULE Assembly ------------------------------
(* How an ephemeris is put together from messages of several kinds, for the   *)
(* three systems. Messages are opaque; Kind, Issue and Mark tell about them.  *)
(*   GPS:     the latest of each kind since the last ephemeris; ready when    *)
(*            there is one of every kind and all name the same issue.         *)
(*   Galileo: the latest of each kind; ready when the four words of the orbit *)
(*            and clock name the same issue. Word 2 begins a collection, and  *)
(*            the ephemeris must be delivered when a collection that contains *)
(*            every kind is consistent.                                       *)
(*   GLONASS: the latest of each kind with the current frame mark; ready on   *)
(*            the last string, when there is one of every kind.               *)
EXTENDS Integers, Sequences, FiniteSets
None == <<>>
Blank(K) == [k \in K |-> None]
All(last) == \A k \in DOMAIN last : last[k] /= None

GpsNew == Blank(1..3)
GpsTake(last, k, m) == [last EXCEPT ![k] = m]
GpsReady(last, Issue(_)) == All(last) /\ \A k \in 1..3 : Issue(last[k]) = Issue(last[1])

GalNew == [last |-> Blank(0..5), fresh |-> {}]
GalTake(s, k, m) ==
    [last |-> [s.last EXCEPT ![k] = m],
     fresh |-> IF k = 2 THEN {2} ELSE IF 2 \in s.fresh THEN s.fresh \cup {k} ELSE {}]
GalMay(s, Issue(_)) == All(s.last) /\ \A k \in 1..4 : Issue(s.last[k]) = Issue(s.last[1])
GalMust(s, Issue(_)) == GalMay(s, Issue) /\ s.fresh = 0..5
GalDelivered(s) == [s EXCEPT !.fresh = {}]

GloNew == [mark |-> -1, last |-> Blank(1..5)]
GloTake(s, k, mark, m) == [mark |-> mark, last |-> [IF mark = s.mark THEN s.last ELSE Blank(1..5) EXCEPT ![k] = m]]
GloReady(s, k) == k = 5 /\ All(s.last)
=============================================================================
