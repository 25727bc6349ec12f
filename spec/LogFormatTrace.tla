--------------------------- MODULE LogFormatTrace ---------------------------
(* Records of every loggable type: declared layout, bytes written, fields in  *)
(* memory when they were written, fields read back.                           *)
EXTENDS LogFormat, TLC, Json, IOUtils, Trace
VARIABLES h, l
Step(e) ==
    \/ e.op = "new" /\ h' = <<>>
    \/ e.op = "header" /\ WellFormed(e.fields) /\ h' = e.fields
    \/ e.op = "records" /\ UNCHANGED h
       /\ Len(e.bytes) = Len(e.mem) * RecordSize(h)
       /\ \A n \in 1..Len(e.mem) :
            /\ DOMAIN e.mem[n] = Names(h)
            /\ LET r == RecordAt(h, e.bytes, n) IN \A i \in 1..Len(h) : FieldAt(h, r, i) = e.mem[n][h[i].n]
            /\ e.back[n] = e.mem[n]
    \* the reader for analysts sees the same records, by the same names, at the same times
    \/ e.op = "python" /\ UNCHANGED h
       /\ DOMAIN e.saw = {"keys", "names", "types", "recs", "same", "off"}
       /\ e.saw.keys = <<4711>> /\ e.saw.recs = e.mem /\ e.saw.same
       /\ e.saw.off <= 300
       /\ e.saw.types = [i \in 1..Len(h) |-> h[i].t]
       /\ (e.mem = <<>> \/ e.saw.names = [i \in 1..Len(h) |-> h[i].n])
Init == l = 1 /\ h = <<>>
Next == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_<<h, l>>
=============================================================================
