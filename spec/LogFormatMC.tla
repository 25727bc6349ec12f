---------------------------- MODULE LogFormatMC ----------------------------
(* Every small header: records written field by field are recovered exactly   *)
(* by a reader that knows only the header, whatever the field values, and a   *)
(* header that misses or adds a field is noticed.                             *)
EXTENDS LogFormat, FiniteSets
CONSTANTS MaxFields, Types, MaxRows
VARIABLES h, recs, bytes
vars == <<h, recs, bytes>>
Name(i) == <<"t.sec", "t.nsec", "a", "b", "c">>[i]
FieldBytes == 0..1
Stamp == <<[n |-> "t.sec", t |-> 9, rows |-> 1, cols |-> 1], [n |-> "t.nsec", t |-> 9, rows |-> 1, cols |-> 1]>>
Init == h = Stamp /\ recs = <<>> /\ bytes = <<>>
AddField == /\ recs = <<>> /\ Len(h) < MaxFields
            /\ \E t \in Types, r \in 1..MaxRows : h' = Append(h, [n |-> Name(Len(h) + 1), t |-> t, rows |-> r, cols |-> 1])
            /\ UNCHANGED <<recs, bytes>>
Write == /\ Len(recs) < 2
         /\ \E b \in [1..Len(h) -> FieldBytes] :
              LET val == [nm \in Names(h) |-> LET i == CHOOSE j \in 1..Len(h) : h[j].n = nm
                                              IN [k \in 1..FieldSize(h[i]) |-> b[i] * 10 + k]]
              IN recs' = Append(recs, val) /\ bytes' = bytes \o Encode(h, val)
         /\ UNCHANGED h
Next == AddField \/ Write
Spec == Init /\ [][Next]_vars
Recovered == /\ Len(bytes) = Len(recs) * RecordSize(h)
             /\ \A n \in 1..Len(recs) : \A i \in 1..Len(h) : FieldAt(h, RecordAt(h, bytes, n), i) = recs[n][h[i].n]
\* a header that misses a field cannot describe the bytes
Noticed == Len(recs) > 0 => \A i \in 3..Len(h) :
    LET h2 == SubSeq(h, 1, i - 1) \o SubSeq(h, i + 1, Len(h)) IN
    Len(bytes) /= Len(recs) * RecordSize(h2)
=============================================================================
