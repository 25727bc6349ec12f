------------------------------ MODULE SensorMC ------------------------------
(* All short sequences of steps, of two sensors and a queue of ephemerides.   *)
EXTENDS Sensor, FiniteSets
CONSTANTS Steps, Gaps, Periods, Records
VARIABLES period, prev, now, queue, all, times, samples, released
vars == <<period, prev, now, queue, all, times, samples, released>>
\* recorded times rise, some equal, some before the start, one far away
Queues == {q \in UNION {[1..n -> 0..3] : n \in 0..Records} : \A i, j \in DOMAIN q : i < j => q[i] <= q[j]}
Init == /\ period \in Periods /\ prev = 0 /\ now = 0 /\ times = <<>> /\ samples = <<>> /\ released = <<>>
        /\ all \in {[i \in DOMAIN q |-> [t |-> 3 * q[i], id |-> i]] : q \in Queues} /\ queue = all
Step == \E g \in Gaps :
    /\ Len(times) < Steps /\ now' = now + g /\ times' = Append(times, now')
    /\ LET s == Sampled(prev, now', period)
       IN prev' = s.prev /\ samples' = IF s.got THEN Append(samples, now') ELSE samples
    /\ queue' = Rest(queue, now')
    /\ released' = IF Ready(queue, now') THEN Append(released, [at |-> now', r |-> queue[1]]) ELSE released
    /\ UNCHANGED <<period, all>>
Spec == Init /\ [][Step]_vars
Before(i) == IF i = 1 THEN 0 ELSE samples[i - 1]
\* samples are a period apart
Spaced == \A i \in 1..Len(samples) : samples[i] - Before(i) >= period
\* and no step a period after the last one passes without
None == \A k \in 1..Len(times) :
          \/ \E i \in 1..Len(samples) : samples[i] = times[k]
          \/ \E i \in 0..Len(samples) : LET s == IF i = 0 THEN 0 ELSE samples[i] IN s <= times[k] /\ times[k] - s < period
\* released in recorded order, each once, none early
InOrder == /\ \A i \in 1..Len(released) : released[i].r = all[i] /\ released[i].at >= all[i].t
           /\ Len(released) + Len(queue) = Len(all)
           /\ \A i, j \in 1..Len(released) : i < j => released[i].r.id < released[j].r.id
\* at most one a query
Prompt == Len(released) <= Len(times)
\* none is left waiting by a query that released none
Waiting == times # <<>> /\ Ready(queue, now) => Cardinality({i \in 1..Len(released) : released[i].at = now}) >= 1
=============================================================================
