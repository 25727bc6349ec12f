---------------------------- MODULE AlmanacTrace ----------------------------
(* Recorded arrivals and queries of satellites must follow Almanac.           *)
EXTENDS Almanac, TLC, Json, IOUtils, Trace
VARIABLES alm, asked, l
Alm(c, s) == IF <<c, s>> \in DOMAIN alm THEN alm[<<c, s>>] ELSE Empty
None == [c |-> -1, s |-> -1, ms |-> 0]
Step(e) ==
    \/ e.op = "new" /\ alm' = Empty /\ asked' = None
    \/ e.op = "add" /\ asked = None /\ e.ok /\ UNCHANGED asked
       /\ LET a == Keep(Alm(e.c, e.s), e.ms, e.id) IN
            /\ alm' = [x \in DOMAIN alm \cup {<<e.c, e.s>>} |-> IF x = <<e.c, e.s>> THEN a ELSE alm[x]]
            /\ e.size = Cardinality(DOMAIN a)
    \/ e.op = "ask" /\ asked = None /\ asked' = [c |-> e.c, s |-> e.s, ms |-> e.ms] /\ UNCHANGED alm
    \/ e.op = "answer" /\ asked /= None /\ asked' = None /\ UNCHANGED alm
       /\ Len(e.ids) = 1 /\ e.ids[1] \in Answers(Alm(asked.c, asked.s), asked.ms)
    \* failure: an error, or the library's failed check ending the program
    \/ e.op = "failed" /\ asked /= None /\ asked' = None /\ UNCHANGED alm /\ Alm(asked.c, asked.s) = Empty
    \/ e.op = "crash" /\ e.status = 255 /\ asked /= None /\ asked' = None /\ UNCHANGED alm
       /\ Alm(asked.c, asked.s) = Empty
Init == l = 1 /\ alm = Empty /\ asked = None
Next == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_<<alm, asked, l>>
=============================================================================
