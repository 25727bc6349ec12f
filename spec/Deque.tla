------------------------------- MODULE Deque -------------------------------
(* What the fixed-size history buffer is meant to be: a bounded double-ended  *)
(* queue. Several buffers exist side by side, because buffers are copied and  *)
(* assigned.                                                                  *)
EXTENDS Integers, Sequences

VARIABLES cap,    \* how many elements a buffer can hold
          bufs    \* buffer name -> sequence of elements (a partial function: only existing buffers)

dvars == <<cap, bufs>>

Exists(b) == b \in DOMAIN bufs
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Front(s) == SubSeq(s, 1, Len(s) - 1)   \* all but the last

Create(b) == ~Exists(b) /\ bufs' = Put(bufs, b, <<>>) /\ UNCHANGED cap
Destroy(b) == Exists(b) /\ bufs' = Drop(bufs, b) /\ UNCHANGED cap

\* inserting into a full buffer discards the element at the opposite end
PushBackOn(s, v) == IF Len(s) = cap THEN Append(Tail(s), v) ELSE Append(s, v)
PushFrontOn(s, v) == IF Len(s) = cap THEN <<v>> \o Front(s) ELSE <<v>> \o s

PushBack(b, v) == Exists(b) /\ bufs' = [bufs EXCEPT ![b] = PushBackOn(@, v)] /\ UNCHANGED cap
PushFront(b, v) == Exists(b) /\ bufs' = [bufs EXCEPT ![b] = PushFrontOn(@, v)] /\ UNCHANGED cap
\* inserting a copy of an element of the same buffer, even the one that is discarded
OwnBack(b, i) == Exists(b) /\ i \in DOMAIN bufs[b] /\ PushBack(b, bufs[b][i])
OwnFront(b, i) == Exists(b) /\ i \in DOMAIN bufs[b] /\ PushFront(b, bufs[b][i])
PopBack(b) == Exists(b) /\ bufs[b] /= <<>> /\ bufs' = [bufs EXCEPT ![b] = Front(@)] /\ UNCHANGED cap
PopFront(b) == Exists(b) /\ bufs[b] /= <<>> /\ bufs' = [bufs EXCEPT ![b] = Tail(@)] /\ UNCHANGED cap
Clear(b) == Exists(b) /\ bufs' = [bufs EXCEPT ![b] = <<>>] /\ UNCHANGED cap
Modify(b, i, v) == Exists(b) /\ i \in DOMAIN bufs[b] /\ bufs' = [bufs EXCEPT ![b][i] = v] /\ UNCHANGED cap
CopyTo(b, c) == Exists(b) /\ ~Exists(c) /\ bufs' = Put(bufs, c, bufs[b]) /\ UNCHANGED cap
AssignTo(b, c) == Exists(b) /\ Exists(c) /\ bufs' = [bufs EXCEPT ![c] = bufs[b]] /\ UNCHANGED cap

DNext(B, V) == \E b \in B :
    \/ Create(b) \/ Destroy(b) \/ PopBack(b) \/ PopFront(b) \/ Clear(b)
    \/ \E v \in V : PushBack(b, v) \/ PushFront(b, v) \/ \E i \in 1..cap : Modify(b, i, v)
    \/ \E c \in B : CopyTo(b, c) \/ AssignTo(b, c)

Bounded == \A b \in DOMAIN bufs : Len(bufs[b]) <= cap
=============================================================================
