----------------------------- MODULE LogStore -----------------------------
(* Logs as a user of the logging system sees them: a log has a start and an   *)
(* end, may amend another log, and holds streams of stamped records. A reader *)
(* sees a log and everything it amends as one log, and replays it.            *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANT TimeLe(_, _)             \* order of time stamps
NoLog == "none"
NoTime == <<>>

(* ------------------------------ writing ---------------------------------- *)
\* log: [open, start, end, amends, keys, schema, data]
EmptyLog(start) == [open |-> TRUE, start |-> start, end |-> NoTime, amends |-> NoLog, keys |-> <<>>,
                    schema |-> <<>>, data |-> <<>>]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
WithStream(g, k, s) == [g EXCEPT !.keys = Append(@, k), !.schema = Upd(@, k, s), !.data = Upd(@, k, <<>>)]
WithRecord(g, k, r) == [g EXCEPT !.data[k] = Append(@, r)]
\* the first close fixes the end of the log
Closed(g, end) == IF g.open THEN [g EXCEPT !.open = FALSE, !.end = end] ELSE g
Amending(g, m) == [g EXCEPT !.amends = m]

(* ------------------------------ reading ---------------------------------- *)
\* the log and the logs it amends, outermost first
RECURSIVE Chain(_, _)
Chain(logs, n) == IF n = NoLog THEN <<>> ELSE <<n>> \o Chain(logs, logs[n].amends)
Min2(a, b) == IF TimeLe(a, b) THEN a ELSE b
Max2(a, b) == IF TimeLe(a, b) THEN b ELSE a
RECURSIVE Earliest(_, _), Latest(_, _)
Earliest(logs, c) == IF Len(c) = 1 THEN logs[c[1]].start ELSE Min2(logs[c[1]].start, Earliest(logs, Tail(c)))
Latest(logs, c) == IF Len(c) = 1 THEN logs[c[1]].end ELSE Max2(logs[c[1]].end, Latest(logs, Tail(c)))
Outermost(logs, c, k) == CHOOSE i \in 1..Len(c) : /\ k \in DOMAIN logs[c[i]].data
                                                  /\ \A j \in 1..(i - 1) : k \notin DOMAIN logs[c[j]].data
View(logs, n) ==
    LET c == Chain(logs, n)
        ks == UNION {DOMAIN logs[c[i]].data : i \in 1..Len(c)}
    IN [start |-> Earliest(logs, c), end |-> Latest(logs, c), chain |-> c,
        data |-> [k \in ks |-> logs[c[Outermost(logs, c, k)]].data[k]]]

(* ------------------------------ replay ----------------------------------- *)
\* rp: [data: subscribed streams, pos: records consumed per stream]
StartReplay(view, subs) ==
    LET ks == DOMAIN view.data \cap subs
    IN [data |-> [k \in ks |-> view.data[k]], pos |-> [k \in ks |-> 0]]
Pending(rp) == {k \in DOMAIN rp.data : rp.pos[k] < Len(rp.data[k])}
Head1(rp, k) == rp.data[k][rp.pos[k] + 1]
\* the streams whose next record may be delivered next
Deliverable(rp) == {k \in Pending(rp) : \A j \in Pending(rp) : TimeLe(Head1(rp, k).t, Head1(rp, j).t)}
Advance(rp, k) == [rp EXCEPT !.pos[k] = @ + 1]
Finished(rp) == Pending(rp) = {}
=============================================================================
