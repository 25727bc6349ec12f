------------------------------- MODULE LogMC -------------------------------
(* The logging system in the small: two logs are written (the second may      *)
(* amend the first), closed, and one is replayed with a maintenance callback. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Keys, MaxT, MaxRecords, Period, MaxFail
LeInt(a, b) == a <= b
LS == INSTANCE LogStore WITH TimeLe <- LeInt
VARIABLES logs, rp, view, delivered, next, calls, fail, stopped, phase
vars == <<logs, rp, view, delivered, next, calls, fail, stopped, phase>>
Names == {"a", "b"}
Total == LET n(g) == LET s(k) == IF k \in DOMAIN logs[g].data THEN Len(logs[g].data[k]) ELSE 0
                     IN s(1) + s(2)
         IN n("a") + (IF "b" \in DOMAIN logs THEN n("b") ELSE 0)
NoRp == [data |-> <<>>, pos |-> <<>>]
NoView == [start |-> 0, end |-> 0, chain |-> <<>>, data |-> <<>>]
Init == /\ logs = [g \in {"a"} |-> LS!EmptyLog(1)]
        /\ rp = NoRp /\ view = NoView /\ delivered = <<>> /\ next = 0 /\ calls = <<>> /\ stopped = FALSE
        /\ phase = "write" /\ fail \in 0..MaxFail
Rest == <<rp, view, delivered, next, calls, fail, stopped, phase>>
InitStream == phase = "write" /\ \E g \in DOMAIN logs, k \in Keys :
    /\ logs[g].open /\ k \notin DOMAIN logs[g].data
    /\ logs' = [logs EXCEPT ![g] = LS!WithStream(@, k, k)] /\ UNCHANGED Rest
WriteRec == phase = "write" /\ Total < MaxRecords /\ \E g \in DOMAIN logs, k \in Keys, t \in 0..MaxT :
    /\ logs[g].open /\ k \in DOMAIN logs[g].data
    /\ logs' = [logs EXCEPT ![g] = LS!WithRecord(@, k, [t |-> t, p |-> <<g, k, Len(logs[g].data[k]) + 1>>])]
    /\ UNCHANGED Rest
OpenSecond == phase = "write" /\ "b" \notin DOMAIN logs /\ \E s \in {0, 2} :
    /\ logs' = LS!Upd(logs, "b", LS!EmptyLog(s)) /\ UNCHANGED Rest
Amend == phase = "write" /\ "b" \in DOMAIN logs /\ logs["b"].open /\ ~logs["a"].open
    /\ logs' = [logs EXCEPT !["b"] = LS!Amending(@, "a")] /\ UNCHANGED Rest
Close == phase = "write" /\ \E g \in DOMAIN logs :
    /\ logs' = [logs EXCEPT ![g] = LS!Closed(@, IF g = "a" THEN 3 ELSE 2)] /\ UNCHANGED Rest
StartRead == phase = "write" /\ (\A g \in DOMAIN logs : ~logs[g].open) /\ \E g \in DOMAIN logs, subs \in SUBSET Keys :
    /\ phase' = "read" /\ view' = LS!View(logs, g) /\ rp' = LS!StartReplay(view', subs)
    /\ next' = view'.start /\ UNCHANGED <<logs, delivered, calls, fail, stopped>>
\* one record: first the maintenance callback if it is due, then the subscriber
Due(t) == t >= next
Deliver == phase = "read" /\ ~stopped /\ \E k \in LS!Deliverable(rp) :
    LET r == LS!Head1(rp, k)
        stop == Due(r.t) /\ Len(calls) + 1 = fail
    IN /\ next' = IF Due(r.t) THEN next + Period ELSE next
       /\ calls' = IF Due(r.t) THEN Append(calls, [sched |-> next, before |-> Len(delivered) + 1, t |-> r.t]) ELSE calls
       /\ stopped' = stop
       /\ IF stop THEN UNCHANGED <<rp, delivered>>
          ELSE rp' = LS!Advance(rp, k) /\ delivered' = Append(delivered, [k |-> k, r |-> r])
       /\ UNCHANGED <<logs, view, fail, phase>>
Next == InitStream \/ WriteRec \/ OpenSecond \/ Amend \/ Close \/ StartRead \/ Deliver
Spec == Init /\ [][Next]_vars

(* ---- what is promised ---- *)
Of(k) == SelectSeq(delivered, LAMBDA d : d.k = k)
\* C06: each subscriber gets the records of its stream in order, nothing else, and all of them by the end
StreamsInOrder == phase = "read" =>
    /\ \A k \in DOMAIN rp.data : [i \in 1..Len(Of(k)) |-> Of(k)[i].r] = SubSeq(view.data[k], 1, rp.pos[k])
    /\ \A i \in 1..Len(delivered) : delivered[i].k \in DOMAIN rp.data
AllAtEnd == (phase = "read" /\ ~stopped /\ ~ENABLED Deliver) =>
    \A k \in DOMAIN rp.data : Len(Of(k)) = Len(view.data[k])
SortedStream(s) == \A i \in 1..(Len(s) - 1) : s[i].t <= s[i + 1].t
Merged == (phase = "read" /\ \A k \in DOMAIN rp.data : SortedStream(rp.data[k])) =>
    \A i \in 1..(Len(delivered) - 1) : delivered[i].r.t <= delivered[i + 1].r.t
\* C07: outermost log wins, nothing else is lost
Amended == phase = "read" =>
    /\ \A k \in DOMAIN view.data : view.data[k] = (IF k \in DOMAIN logs[view.chain[1]].data
                                                   THEN logs[view.chain[1]].data[k] ELSE logs["a"].data[k])
    /\ \A i \in 1..Len(view.chain) : DOMAIN logs[view.chain[i]].data \subseteq DOMAIN view.data
    /\ \A i \in 1..Len(view.chain) : view.start <= logs[view.chain[i]].start /\ view.end >= logs[view.chain[i]].end
\* C08: on schedule, in order, before any later record, never early; an error stops the replay
Schedule == \A i \in 1..Len(calls) : calls[i].sched = view.start + (i - 1) * Period /\ calls[i].t >= calls[i].sched
Dense == \* streams in order, merged records spaced closer than the period and starting before start + period
    /\ \A k \in DOMAIN rp.data : SortedStream(rp.data[k])
    /\ Len(delivered) > 0 => delivered[1].r.t < view.start + Period
    /\ \A i \in 1..(Len(delivered) - 1) : delivered[i + 1].r.t - delivered[i].r.t < Period
OnTime == (phase = "read" /\ Dense) =>
    \A i \in 1..Len(delivered) : LET t == delivered[i].r.t
                                     must == IF t < view.start THEN 0 ELSE (t - view.start) \div Period + 1
                                 IN Cardinality({j \in 1..Len(calls) : calls[j].before <= i}) = must
Stops == stopped => Len(calls) = fail /\ (\A j \in 1..Len(calls) : calls[j].before <= Len(delivered) + 1)
\* C05: a closed log never changes, records are only ever added
ClosedFixed == [][\A g \in DOMAIN logs : ~logs[g].open =>
                    /\ logs'[g].data = logs[g].data /\ logs'[g].end = logs[g].end /\ logs'[g].start = logs[g].start]_vars
Grows == [][\A g \in DOMAIN logs : \A k \in DOMAIN logs[g].data :
              \/ logs'[g].data[k] = logs[g].data[k]
              \/ SubSeq(logs'[g].data[k], 1, Len(logs[g].data[k])) = logs[g].data[k]]_vars
=============================================================================
