------------------------------ MODULE UbxTrace ------------------------------
(* Recorded receiving and sending: chunks of the incoming stream with what    *)
(* the listeners were told, and requests with the bytes that were sent.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils, Trace
VARIABLES l, st, subs, count, ver
vars == <<l, st, subs, count, ver>>
U == INSTANCE Ubx WITH Sync1 <- 181, Sync2 <- 98, Base <- 256, MaxLength <- 2048
Least(a, b) == IF a < b THEN a ELSE b
(* ---- what the listeners are told ---- *)
Told(ms, sb) == FlattenSeq([k \in 1..Len(ms) |->
    SelectSeq([n \in 1..2 |-> [l |-> n, m |-> ms[k]]], LAMBDA r : <<r.m.c, r.m.t>> \in sb[r.l])])
SameMessages(got, want) ==
    /\ Len(got) = Len(want)
    /\ \A k \in 1..Len(got) : LET g == got[k] w == want[k] n == Least(Len(g.b), Len(w.m.p)) IN
          g.l = w.l /\ g.c = w.m.c /\ g.t = w.m.t /\ SubSeq(g.b, 1, n) = SubSeq(w.m.p, 1, n)
(* ---- the version message: 30 + 10 characters, then strings of 30 ---- *)
Chars(p) == [k \in 1..((IF Len(p) < 40 THEN 40 ELSE Len(p)) - 40) \div 30 |-> SubSeq(p, 11 + 30 * k, 40 + 30 * k)]
Zero(s) == IF \E k \in 1..Len(s) : s[k] = 0 THEN CHOOSE k \in 1..Len(s) : s[k] = 0 /\ \A j \in 1..k - 1 : s[j] /= 0 ELSE Len(s) + 1
Text(s) == SubSeq(s, 1, Zero(s) - 1)
ProtVer == <<80, 82, 79, 84, 86, 69, 82, 61>>
Mod == <<77, 79, 68, 61>>
Number(s) == FoldLeft(LAMBDA a, c : 10 * a + (c - 48), 0, s)
Dot(s) == CHOOSE k \in 1..Len(s) : s[k] = 46
Learn(v, s) ==
    IF IsPrefix(ProtVer, s)
    THEN LET t == SubSeq(s, 9, Len(s)) IN [v EXCEPT !.major = Number(SubSeq(t, 1, Dot(t) - 1)), !.minor = Number(SubSeq(t, Dot(t) + 1, Len(t)))]
    ELSE IF IsPrefix(Mod, s) THEN [v EXCEPT !.mod = SubSeq(s, 5, Len(s))] ELSE v
Versions(v, ms) == FoldLeft(LAMBDA a, m : IF m.c = 10 /\ m.t = 4 THEN FoldLeft(Learn, a, [k \in 1..Len(Chars(m.p)) |-> Text(Chars(m.p)[k])]) ELSE a, v, ms)
SameVersion(e, v) == /\ e.major = v.major /\ e.minor = v.minor
                     /\ IsPrefix(e.mod, v.mod) /\ Len(e.mod) >= Least(9, Len(v.mod))
(* ---- what is sent ---- *)
Sent(e) == U!TakeAll(U!Quiet, e.sent).out
WellFramed(e, ms) == e.sent = FlattenSeq([k \in 1..Len(ms) |-> U!Frame(ms[k].c, ms[k].t, ms[k].p)])
Le(w, n) == [k \in 1..n |-> (w[4 - (k - 1) \div 2] \div (IF k % 2 = 1 THEN 1 ELSE 256)) % 256]
W(hi, lo) == <<0, 0, hi, lo>>
Zeros(n) == [k \in 1..n |-> 0]
\* a payload that begins like this and has nothing else in it
Begins(p, b) == Len(p) >= Len(b) /\ SubSeq(p, 1, Len(b)) = b /\ \A k \in Len(b) + 1..Len(p) : p[k] = 0
Cfg(m, t, b) == m.c = 6 /\ m.t = t /\ Begins(m.p, b)
Exactly(m, t, p) == m.c = 6 /\ m.t = t /\ m.p = p
ValSet(m, version, layer, data, key, size) == Cfg(m, 138, <<version, layer, 0, 0>> \o Le(key, 4) \o Le(data, size)) /\ Len(m.p) <= 16
Requested(e, ms) ==
    CASE e.kind = "enable" -> Len(ms) = 1 /\ Exactly(ms[1], 1, <<e.c, e.t, e.rate>>)
      [] e.kind = "configure" -> Len(ms) = 1 /\ ValSet(ms[1], e.version, e.layer, e.data, e.key, e.size)
      [] e.kind = "getcfg" -> Len(ms) = 1 /\ Cfg(ms[1], 139, <<e.version, e.layer, 0, 0>> \o Le(e.key, 4))
      [] e.kind = "rate" ->
            IF ver.major <= 23 THEN Len(ms) = 1 /\ Exactly(ms[1], 8, <<e.ms, 0, 1, 0, 0, 0>>)
            ELSE /\ Len(ms) = 3
                 /\ ValSet(ms[1], 0, 1, W(0, e.ms), W(12321, 1), 2)
                 /\ ValSet(ms[2], 0, 1, W(0, 1), W(12321, 2), 2)
                 /\ ValSet(ms[3], 0, 1, W(0, 0), W(8225, 3), 1)
      [] e.kind = "dyn" ->
            IF ver.major <= 23 THEN Len(ms) = 1 /\ Exactly(ms[1], 36, <<1, 0, 8>> \o Zeros(33))
            ELSE Len(ms) = 1 /\ ValSet(ms[1], 0, 1, W(0, 6), W(8209, 33), 1)
      [] e.kind = "nmea" ->
            IF ver.major <= 23
            THEN Len(ms) = 1 /\ ms[1].c = 6 /\ ms[1].t = 0 /\ Len(ms[1].p) = 20 /\ ms[1].p[1] = 3
                 /\ SubSeq(ms[1].p, 13, 16) = <<33, 0, 33, 0>>
            ELSE /\ Len(ms) = 2
                 /\ ValSet(ms[1], 0, 1, W(0, 0), W(4215, 2), 1)
                 /\ ValSet(ms[2], 0, 1, W(0, 0), W(4216, 2), 1)
      [] e.kind = "survey" -> Len(ms) = 1 /\ Exactly(ms[1], 113, <<0, 0, 1, 0>> \o Zeros(20) \o <<60, 0, 0, 0>> \o <<44, 1, 0, 0>> \o Zeros(8))
      [] e.kind = "version" -> Len(ms) = 1 /\ ms[1] = [c |-> 10, t |-> 4, p |-> <<>>]
Heard(e, xs) ==
    \E s \in {U!TakeAll(st, xs)} :
       /\ TRUE = SameMessages(e.msgs, Told(s.out, subs))
       /\ TRUE = (e.n = count + Len(s.out) /\ e.busy = s.on)
       /\ TRUE = SameVersion(e, Versions(ver, s.out))
       /\ st' = U!Forget(s) /\ count' = count + Len(s.out) /\ ver' = Versions(ver, s.out)
Deaf(e) == /\ TRUE = (e.msgs = <<>> /\ e.n = count /\ e.busy = st.on /\ SameVersion(e, ver))
           /\ UNCHANGED <<st, count, ver>>
Start == st = U!Quiet /\ subs = [n \in 1..2 |-> {}] /\ count = 0 /\ ver = [major |-> 0, minor |-> 0, mod |-> <<>>]
Step(e) ==
    \/ e.op = "new" /\ st' = U!Quiet /\ subs' = [n \in 1..2 |-> {}] /\ count' = 0 /\ ver' = [major |-> 0, minor |-> 0, mod |-> <<>>]
    \/ e.op = "sub" /\ TRUE = (~e.threw) /\ subs' = [subs EXCEPT ![e.l] = @ \cup {<<e.c, e.t>>}] /\ Deaf(e)
    \/ e.op = "rx" /\ TRUE = (~e.threw /\ e.sent = <<>>) /\ Heard(e, e.bytes) /\ UNCHANGED subs
    \/ e.op = "restart" /\ TRUE = (~e.threw /\ e.msgs = <<>> /\ e.n = count /\ ~e.busy) /\ st' \in U!Abandoned(st) /\ UNCHANGED <<subs, count, ver>>
    \/ e.op = "send" /\ TRUE = (~e.threw /\ e.ok /\ e.sent = U!Frame(e.c, e.t, e.p)) /\ Deaf(e) /\ UNCHANGED subs
    \/ e.op = "req" /\ \E ms \in {Sent(e)} :
          /\ TRUE = (~e.threw /\ WellFramed(e, ms) /\ Requested(e, ms))
          /\ UNCHANGED subs
          /\ IF e.kind = "version"
             THEN Heard(e, e.bytes) /\ TRUE = (e.ok = (\E m \in ToSet(U!TakeAll(st, e.bytes).out) : m.c = 10 /\ m.t = 4))
             ELSE Deaf(e)
Init == l = 1 /\ Start
Next == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
=============================================================================
