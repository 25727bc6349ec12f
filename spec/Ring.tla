-------------------------------- MODULE Ring --------------------------------
(* The design of the buffer: N raw slots, a head and a tail index that wrap.  *)
(* A slot holds an element or is Dead; constructing over a live slot, or      *)
(* destroying, reading or assigning a dead one, is recorded in `bad'.         *)
(* Checked: it refines the bounded deque and never does anything `bad'.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Buf, Val, Broken   \* Broken: deliberately wrong variants, to see the properties fail
Dead == -1

VARIABLES slots, head, tail, bad
rvars == <<slots, head, tail, bad>>

Inc(i) == (i + 1) % N
Dec(i) == (i + N - 1) % N
Live == DOMAIN slots
Size(b) == (tail[b] + N - head[b]) % N
Full(b) == Inc(tail[b]) = head[b]
IsEmpty(b) == head[b] = tail[b]
Content(b) == [i \in 1..Size(b) |-> slots[b][(head[b] + i - 1) % N]]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
NoElem == [i \in 0..N-1 |-> Dead]

Init == slots = <<>> /\ head = <<>> /\ tail = <<>> /\ bad = {}

\* one (possibly evicting) step as: optional destruction of slot d, then optional construction at slot c
Step(b, d, c, v, h, t) ==
    LET s1 == IF d = Dead THEN slots[b] ELSE [slots[b] EXCEPT ![d] = Dead]
        s2 == IF c = Dead THEN s1 ELSE [s1 EXCEPT ![c] = v]
    IN /\ bad' = bad \cup (IF d /= Dead /\ slots[b][d] = Dead THEN {"destroyed a dead slot"} ELSE {})
                     \cup (IF c /= Dead /\ s1[c] /= Dead THEN {"constructed over a live slot"} ELSE {})
       /\ slots' = [slots EXCEPT ![b] = s2]
       /\ head' = [head EXCEPT ![b] = h] /\ tail' = [tail EXCEPT ![b] = t]

Create(b) == /\ b \notin Live /\ slots' = Put(slots, b, NoElem) /\ head' = Put(head, b, 0)
             /\ tail' = Put(tail, b, 0) /\ UNCHANGED bad
Destroy(b) == /\ b \in Live
              /\ bad' = bad \cup (IF \E i \in 1..Size(b) : Content(b)[i] = Dead THEN {"destroyed a dead slot"} ELSE {})
                            \cup (IF Cardinality({i \in 0..N-1 : slots[b][i] /= Dead}) /= Size(b) THEN {"leak"} ELSE {})
              /\ slots' = Drop(slots, b) /\ head' = Drop(head, b) /\ tail' = Drop(tail, b)
PushBack(b, v) == b \in Live /\
    IF Full(b) THEN Step(b, head[b], tail[b], v, Inc(head[b]), Inc(tail[b]))
               ELSE Step(b, Dead, tail[b], v, head[b], Inc(tail[b]))
PushFront(b, v) == b \in Live /\
    IF Full(b) THEN Step(b, Dec(tail[b]), Dec(head[b]), v, Dec(head[b]), Dec(tail[b]))
               ELSE Step(b, Dead, Dec(head[b]), v, Dec(head[b]), tail[b])
\* a copy of an element of the same buffer: it is read before anything falls out, the slot at the
\* other side of the gap being free even when the buffer is full
Own(b, i, d, c, h, t) == LET r == (head[b] + i) % N IN
    /\ slots' = [slots EXCEPT ![b] = [x \in 0..N-1 |-> IF x = c THEN @[r] ELSE IF x = d THEN Dead ELSE @[x]]]
    /\ bad' = bad \cup (IF slots[b][c] /= Dead THEN {"constructed over a live slot"} ELSE {})
                  \cup (IF d /= Dead /\ slots[b][d] = Dead THEN {"destroyed a dead slot"} ELSE {})
                  \cup (IF Broken = "evict_first" /\ r = d THEN {"read a dead slot"} ELSE {})
    /\ head' = [head EXCEPT ![b] = h] /\ tail' = [tail EXCEPT ![b] = t]
OwnBack(b, i) == b \in Live /\ i < Size(b) /\
    Own(b, i, IF Full(b) THEN head[b] ELSE Dead, tail[b], IF Full(b) THEN Inc(head[b]) ELSE head[b], Inc(tail[b]))
OwnFront(b, i) == b \in Live /\ i < Size(b) /\
    Own(b, i, IF Full(b) THEN Dec(tail[b]) ELSE Dead, Dec(head[b]), Dec(head[b]), IF Full(b) THEN Dec(tail[b]) ELSE tail[b])
PopFront(b) == b \in Live /\ ~IsEmpty(b) /\ Step(b, head[b], Dead, 0, Inc(head[b]), tail[b])
PopBack(b) == b \in Live /\ ~IsEmpty(b) /\
    Step(b, IF Broken = "pop_back" THEN tail[b] ELSE Dec(tail[b]), Dead, 0, head[b], Dec(tail[b]))
\* clear destroys from the head up to the tail and leaves both at the tail
Clear(b) == b \in Live /\ slots' = [slots EXCEPT ![b] =
                [i \in 0..N-1 |-> IF \E j \in 0..Size(b)-1 : i = (head[b] + j) % N THEN Dead ELSE @[i]]]
            /\ head' = [head EXCEPT ![b] = tail[b]] /\ UNCHANGED <<tail, bad>>
\* a copy has slots of its own
Fresh(b) == [i \in 0..N-1 |-> IF i < Size(b) THEN Content(b)[i + 1] ELSE Dead]
CopyTo(b, c) == /\ b \in Live /\ c \notin Live
                /\ slots' = Put(slots, c, Fresh(b)) /\ head' = Put(head, c, 0)
                /\ tail' = Put(tail, c, Size(b)) /\ UNCHANGED bad
AssignTo(b, c) == /\ b \in Live /\ c \in Live
                  /\ IF b = c THEN UNCHANGED <<slots, head, tail>>
                     ELSE /\ slots' = [slots EXCEPT ![c] = Fresh(b)] /\ head' = [head EXCEPT ![c] = 0]
                          /\ tail' = [tail EXCEPT ![c] = Size(b)]
                  /\ UNCHANGED bad

Next == \E b \in Buf :
    \/ Create(b) \/ Destroy(b) \/ PopBack(b) \/ PopFront(b) \/ Clear(b)
    \/ \E v \in Val : PushBack(b, v) \/ PushFront(b, v)
    \/ \E i \in 0..N-2 : OwnBack(b, i) \/ OwnFront(b, i)
    \/ \E c \in Buf : CopyTo(b, c) \/ AssignTo(b, c)
Spec == Init /\ [][Next]_rvars

NothingBad == bad = {}
OnlyContentLive == \A b \in Live : \A i \in 0..N-1 :
    (slots[b][i] /= Dead) <=> (\E j \in 0..Size(b)-1 : i = (head[b] + j) % N)

D == INSTANCE Deque WITH cap <- N - 1, bufs <- [b \in Live |-> Content(b)]
RefinesDeque == [][D!DNext(Buf, Val)]_<<[b \in Live |-> Content(b)]>>
Bounded == D!Bounded
=============================================================================
