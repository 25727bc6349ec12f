-------------------------------- MODULE Ubx --------------------------------
(* The framing of the receiver protocol. A message is the class, the type,    *)
(* the length of the payload (two bytes, low one first), the payload and two  *)
(* check bytes over all of these, after the bytes Sync1 Sync2. A message that *)
(* has begun extends over the length it announces, unless that is too long.   *)
(* The receiving side takes the bytes one at a time.                          *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS Sync1, Sync2, Base, MaxLength
None == -1
\* check bytes of a sequence: the sum, and the sum of the running sums
SumA(s) == FoldLeft(LAMBDA a, x : (a + x) % Base, 0, s)
SumB(s) == FoldLeft(LAMBDA a, k : (a + (Len(s) + 1 - k) * s[k]) % Base, 0, [k \in 1..Len(s) |-> k])
Body(c, t, p) == <<c, t, Len(p) % Base, Len(p) \div Base>> \o p
Frame(c, t, p) == LET b == Body(c, t, p) IN <<Sync1, Sync2>> \o b \o <<SumA(b), SumB(b)>>
Announced(b) == b[3] + Base * b[4]
Message(b) == [c |-> b[1], t |-> b[2], p |-> SubSeq(b, 5, Len(b) - 2)]
Good(b) == LET h == SubSeq(b, 1, Len(b) - 2) IN b[Len(b) - 1] = SumA(h) /\ b[Len(b)] = SumB(h)

\* on: within a message; b: its bytes so far; last: the byte before, where it can be a Sync1;
\* out: the messages completed
Idle(last, out) == [on |-> FALSE, b |-> <<>>, last |-> last, out |-> out]
Quiet == Idle(None, <<>>)
Take(s, x) ==
    IF ~s.on
    THEN IF s.last = Sync1 /\ x = Sync2 THEN [s EXCEPT !.on = TRUE, !.b = <<>>, !.last = None] ELSE [s EXCEPT !.last = x]
    ELSE LET b == Append(s.b, x) n == Len(b) IN
         IF n < 4 THEN [s EXCEPT !.b = b]
         ELSE IF Announced(b) > MaxLength THEN Idle(x, s.out)
         ELSE IF n < 6 + Announced(b) THEN [s EXCEPT !.b = b]
         ELSE IF Good(b) THEN Idle(None, Append(s.out, Message(b)))
         ELSE Idle(x, s.out)
TakeAll(s, xs) == FoldLeft(Take, s, xs)
Forget(s) == [s EXCEPT !.out = <<>>]
\* a message in progress is given up; whether its last byte can still be a Sync1 is open
Abandoned(s) == IF s.on THEN {Idle(None, s.out), Idle(IF s.b = <<>> THEN Sync2 ELSE s.b[Len(s.b)], s.out)} ELSE {s, Idle(None, s.out)}
=============================================================================
