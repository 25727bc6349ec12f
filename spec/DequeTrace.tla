----------------------------- MODULE DequeTrace -----------------------------
(* Runs of the real buffer, checked against Deque. Every event carries what   *)
(* all existing buffers look like after the operation, through every way of   *)
(* looking at them, and (for element types that report it) which element      *)
(* objects are alive and how often a dead or live slot was misused.           *)
EXTENDS Deque, TLC, Json, IOUtils, FiniteSets, Trace
VARIABLE l

Eq(a, s) == a = s
\* one existing buffer seen through its interface: size, emptiness, ends, indexing, iteration
SeenAs(o, s) ==
    /\ o.size = Len(s) /\ o.empty = (s = <<>>) /\ o.full = (Len(s) = cap)
    /\ o.max = cap
    /\ (s /= <<>> => o.front = s[1] /\ o.back = s[Len(s)])
    /\ o.at = s /\ o.fwd = s /\ o.post = s /\ o.plus = s /\ o.cfwd = s
    /\ o.rev = s /\ o.minus = s /\ o.pluseq = s /\ o.minuseq = s /\ o.cat = s
    \* distances and comparisons between the positions listed in o.pos
    /\ \A i, j \in 1..Len(o.pos) :
         LET k == (i - 1) * Len(o.pos) + j IN
         /\ o.diff[k] = o.pos[i] - o.pos[j]
         /\ o.lt[k] = (IF o.pos[i] < o.pos[j] THEN 1 ELSE 0) /\ o.le[k] = (IF o.pos[i] <= o.pos[j] THEN 1 ELSE 0)
         /\ o.gt[k] = (IF o.pos[i] > o.pos[j] THEN 1 ELSE 0) /\ o.ge[k] = (IF o.pos[i] >= o.pos[j] THEN 1 ELSE 0)
         /\ o.eq[k] = (IF o.pos[i] = o.pos[j] THEN 1 ELSE 0) /\ o.ne[k] = (IF o.pos[i] /= o.pos[j] THEN 1 ELSE 0)

Views(e, f) == e.kind = "view" =>
    /\ {e.view[i].b : i \in 1..Len(e.view)} = DOMAIN f /\ Len(e.view) = Cardinality(DOMAIN f)
    /\ \A i \in 1..Len(e.view) : SeenAs(e.view[i], f[e.view[i].b])

\* element objects: exactly the elements of the buffers are alive, nothing was misused
Count(v, s) == Cardinality({i \in 1..Len(s) : s[i] = v})
RECURSIVE SumOver(_, _, _)
SumOver(S, f, v) == IF S = {} THEN 0
                    ELSE LET b == CHOOSE x \in S : TRUE IN Count(v, f[b]) + SumOver(S \ {b}, f, v)
Vals(f) == UNION {{f[b][i] : i \in 1..Len(f[b])} : b \in DOMAIN f}
Lifetimes(e, f) == e.kind = "life" =>
    /\ e.misuse = 0
    /\ \A v \in Vals(f) \cup {e.live[i] : i \in 1..Len(e.live)} : Count(v, e.live) = SumOver(DOMAIN f, f, v)

Ok(e) == Views(e, bufs') /\ Lifetimes(e, bufs')

Step(e) ==
    \/ e.op = "new" /\ cap' = e.cap /\ bufs' = <<>>
    \/ e.op = "create" /\ Create(e.b) /\ Ok(e)
    \/ e.op = "destroy" /\ Destroy(e.b) /\ Ok(e)
    \/ e.op \in {"push_back", "emplace_back"} /\ PushBack(e.b, e.v) /\ Ok(e)
    \/ e.op \in {"push_front", "emplace_front"} /\ PushFront(e.b, e.v) /\ Ok(e)
    \/ e.op = "own_back" /\ OwnBack(e.b, e.i + 1) /\ Ok(e)
    \/ e.op = "own_front" /\ OwnFront(e.b, e.i + 1) /\ Ok(e)
    \/ e.op = "pop_back" /\ PopBack(e.b) /\ Ok(e)
    \/ e.op = "pop_front" /\ PopFront(e.b) /\ Ok(e)
    \/ e.op = "clear" /\ Clear(e.b) /\ Ok(e)
    \/ e.op = "modify" /\ Modify(e.b, e.i + 1, e.v) /\ Ok(e)
    \/ e.op = "copy" /\ CopyTo(e.b, e.c) /\ Ok(e)
    \/ e.op = "assign" /\ AssignTo(e.b, e.c) /\ Ok(e)

Init == l = 1 /\ cap = 0 /\ bufs = <<>>
Next == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_<<cap, bufs, l>>
=============================================================================
