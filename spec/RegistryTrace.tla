---------------------------- MODULE RegistryTrace ----------------------------
(* Recorded arrivals and lookups of the satellite registry must follow        *)
(* Registry.                                                                  *)
EXTENDS Registry, TLC, Json, IOUtils, Trace
VARIABLE l
Step(e) ==
    \/ e.op = "new" /\ reg' = [c \in 0..2 |-> <<>>]
    \/ e.op = "reg" /\ Arrive(e.c, e.s, e.ms, e.id)
    \/ e.op = "get" /\ UNCHANGED reg
       /\ IF Registered(e.c, e.s)
          THEN /\ e.ok /\ e.g = e.c /\ e.n = e.s
               /\ LET a == The(e.c, e.s).alm IN
                    /\ e.size = Cardinality(DOMAIN a)
                    /\ \A k \in 1..Len(e.ans) : Len(e.ans[k].ids) = 1 /\ e.ans[k].ids[1] \in Answers(a, e.ans[k].ms)
          ELSE ~e.ok
Init == l = 1 /\ reg = [c \in 0..2 |-> <<>>]
Next == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_<<reg, l>>
=============================================================================
