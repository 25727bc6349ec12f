----------------------------- MODULE TimeTrace -----------------------------
(* Recorded uses of time stamps: a running stamp `now' changed in place, and  *)
(* single operations.                                                         *)
EXTENDS TimeStamps, TLC, Json, IOUtils, Trace
CONSTANT Half
VARIABLES now, l
Near(r, x) == r \in {x, Add(x, Ns(1)), Add(x, Ns(-1))}

Pure(e) == UNCHANGED now /\
    \/ e.op = "cmp" /\ e.r = Compare(e.a, e.b) /\ e.q \in QCompare(e.a, e.b, Half) /\ e.p \in QCompare(e.a, e.b, Half)
    \/ e.op = "add" /\ e.r = Add(e.a, e.b) /\ e.back = e.a
    \/ e.op = "sub" /\ e.r = Sub(e.a, e.b) /\ e.back = e.a
    \/ e.op = "addf" /\ Near(e.r, Add(e.a, e.b)) /\ Canonical(e.r) /\ e.back = e.a
    \/ e.op = "subf" /\ Near(e.r, Sub(e.a, e.b)) /\ Canonical(e.r) /\ e.back = e.a
    \/ e.op = "addi" /\ e.r = Add(e.a, e.b) /\ e.back = e.a
    \/ e.op = "subi" /\ e.r = Sub(e.a, e.b) /\ e.back = e.a
    \/ e.op = "tosec" /\ Near(e.r, e.a)       \* seconds as floating point, in nanoseconds
    \/ e.op = "ofsec" /\ Near(e.r, e.b)       \* stamp made from floating point seconds
    \/ e.op = "make" /\ e.r = Add(e.b, Ns(e.ns)) /\ e.q = e.r  \* stamp made from seconds and nanoseconds
InPlace(e) ==
    \/ e.op = "inc" /\ now' = Add(now, e.b) /\ e.r = now'
    \/ e.op = "dec" /\ now' = Sub(now, e.b) /\ e.r = now'
    \/ e.op = "incf" /\ Near(e.r, Add(now, e.b)) /\ Canonical(e.r) /\ now' = e.r
    \/ e.op = "decf" /\ Near(e.r, Sub(now, e.b)) /\ Canonical(e.r) /\ now' = e.r
    \/ e.op = "inci" /\ now' = Add(now, e.b) /\ e.r = now'
    \/ e.op = "deci" /\ now' = Sub(now, e.b) /\ e.r = now'
Step(e) == \/ e.op = "new" /\ now' = e.a
           \/ Pure(e) \/ InPlace(e)
Init == l = 1 /\ now = Zero
Next == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_<<now, l>>
=============================================================================
