------------------------------- MODULE UbxMC -------------------------------
(* Every stream up to a length over a small alphabet: the automaton finds     *)
(* exactly the messages of the declarative reading of the whole stream.       *)
EXTENDS Ubx
CONSTANTS Depth, Tails
VARIABLES stream, st
vars == <<stream, st>>
Bytes == 0..Base - 1
Init == stream = <<>> /\ st = Quiet
Next == \E x \in Bytes : Len(stream) < Depth /\ stream' = Append(stream, x) /\ st' = Take(st, x)
Spec == Init /\ [][Next]_vars
(* the reading of a stream as a whole *)
Begins(s, k) == k < Len(s) /\ s[k] = Sync1 /\ s[k + 1] = Sync2
RECURSIVE Reading(_, _)
Reading(s, from) ==
    IF \A k \in from..Len(s) : ~Begins(s, k) THEN <<>>
    ELSE LET k == CHOOSE k \in from..Len(s) : Begins(s, k) /\ \A j \in from..k - 1 : ~Begins(s, j)
             len == s[k + 4] + Base * s[k + 5]
             end == k + 7 + len
             b == SubSeq(s, k + 2, end)
         IN IF k + 5 > Len(s) THEN <<>>
            ELSE IF len > MaxLength THEN Reading(s, k + 5)
            ELSE IF end > Len(s) THEN <<>>
            ELSE IF s[end - 1] = SumA(SubSeq(b, 1, Len(b) - 2)) /\ s[end] = SumB(SubSeq(b, 1, Len(b) - 2))
                 THEN <<[c |-> b[1], t |-> b[2], p |-> SubSeq(b, 5, 4 + len)]>> \o Reading(s, end + 1)
                 ELSE Reading(s, end)
Exact == st.out = Reading(stream, 1)
(* nothing stops it: after any stream, once a message in progress has had time to end, the next one is found *)
Payloads == UNION {[1..n -> {0, Sync1, Sync2}] : n \in 0..MaxLength}
Recovers == \A c \in {0, Sync1}, t \in {Sync2}, p \in Payloads : Len(stream) <= Tails =>
    LET quiet == [k \in 1..MaxLength + 6 |-> 0]
        r == TakeAll(st, quiet \o Frame(c, t, p))
    IN r.out[Len(r.out)] = [c |-> c, t |-> t, p |-> p] /\ ~r.on
Bounded == Len(st.b) <= MaxLength + 5 /\ (~st.on => st.b = <<>>)
\* what is sent is what is read
Returns == Len(stream) <= 4 => \A c \in Bytes, t \in {0, Sync1} : \A s \in {Frame(c, t, SubSeq(stream, 1, k)) : k \in 0..IF Len(stream) < MaxLength THEN Len(stream) ELSE MaxLength} :
    TakeAll(Quiet, s).out = Reading(s, 1) /\ Len(Reading(s, 1)) = 1
=============================================================================
