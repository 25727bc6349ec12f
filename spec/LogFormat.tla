----------------------------- MODULE LogFormat -----------------------------
(* The layout of a log stream: the header lists fields with element type and  *)
(* shape, and a record is the concatenation of its fields' bytes in that      *)
(* order. A reader that knows only the header must be able to cut a stream    *)
(* into records and fields.                                                   *)
EXTENDS Integers, Sequences
\* bytes per element, by type code: double float int64 int32 int16 int8 uint64 uint32 uint16 uint8
TypeSize == <<8, 4, 8, 4, 2, 1, 8, 4, 2, 1>>
FieldSize(f) == TypeSize[f.t + 1] * f.rows * f.cols
RECURSIVE RecordSize(_)
RecordSize(h) == IF h = <<>> THEN 0 ELSE FieldSize(h[1]) + RecordSize(Tail(h))
Offset(h, i) == RecordSize(SubSeq(h, 1, i - 1))

\* what a reader of the header alone makes of the n-th record and its i-th field
RecordAt(h, bytes, n) == SubSeq(bytes, (n - 1) * RecordSize(h) + 1, n * RecordSize(h))
FieldAt(h, rec, i) == SubSeq(rec, Offset(h, i) + 1, Offset(h, i) + FieldSize(h[i]))
Names(h) == {h[i].n : i \in 1..Len(h)}
WellFormed(h) == /\ \A i, j \in 1..Len(h) : h[i].n = h[j].n => i = j
                 /\ Len(h) >= 2 /\ h[1].n = "t.sec" /\ h[2].n = "t.nsec"
\* how a writer must lay a record out
RECURSIVE Encode(_, _)
Encode(h, val) == IF h = <<>> THEN <<>> ELSE val[h[1].n] \o Encode(Tail(h), val)
=============================================================================
