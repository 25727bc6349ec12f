---------------------------- MODULE EstimatorTrace ----------------------------
(* Recorded histories of the delayed-state estimator must follow Estimator.   *)
(* The recording names every propagation and update as a node of a graph; the *)
(* history is rebuilt from the path that leads to the newest state.           *)
EXTENDS Estimator, TLC, Json, IOUtils, Trace
CONSTANTS Order,     \* check the order of fusion (C11)
          Bounds,    \* check acceptance and bounds (C12)
          Cap,       \* satellites the registry holds per constellation
          MaxBundle, \* observations of a bundle
          Stale,     \* largest distance from an ephemeris (GPS, Galileo)
          Second
VARIABLES l, hist, ms, top, reg, call, fp, qn
vars == <<l, hist, ms, top, reg, call, fp, qn>>
NoCall == [kind |-> "none"]

Entry(c, s) == {k \in 1..Len(reg[c]) : reg[c][k].sat = s}
Eph(e) ==
    LET new == [sat |-> e.s, toes |-> {e.t}] IN
    reg' = [reg EXCEPT ![e.c] =
        IF Entry(e.c, e.s) /= {} THEN [k \in 1..Len(@) |-> IF @[k].sat = e.s THEN [@[k] EXCEPT !.toes = @ \cup {e.t}] ELSE @[k]]
        ELSE IF Len(@) = Cap THEN Append(Tail(@), new) ELSE Append(@, new)]
Known(n) == LET c == n \div 256 IN c <= 2 /\ Entry(c, n % 256) /= {}
\* distance to the closest ephemeris is within d
Current(n, t, d) ==
    LET c == n \div 256 IN
    c = 1 \/ \E k \in Entry(c, n % 256) : \E x \in reg[c][k].toes : Abs(t - x) <= d
SurelyUsable(b) == Len(b.sats) <= MaxBundle /\ \A k \in 1..Len(b.sats) : Known(b.sats[k]) /\ Current(b.sats[k], b.t, Stale - 2 * Second)
SurelyUnusable(b) == Len(b.sats) > MaxBundle \/ \E k \in 1..Len(b.sats) : ~Known(b.sats[k]) \/ ~Current(b.sats[k], b.t, Stale + Second)
MustReject(b) == b.t < hist[1].t - Tie \/ SurelyUnusable(b)
MustAccept(b) == b.t > hist[1].t - Tie /\ SurelyUsable(b)

Unaltered(e) ==
    /\ Len(e.states) = Len(hist)
    /\ \A k \in 1..Len(hist) : e.states[k][2] = hist[k].node
    /\ e.fp = fp /\ e.qn = qn

\* ---------------------------------------------------------------- the history after a measurement
\* (quantifying over a singleton makes TLC evaluate a value once)
Accepted0(e, b) ==
    \E m \in {[id |-> b.id, t |-> b.t, kind |-> b.kind]} :
    \* the retained state it was rolled forward from
    \E k0 \in {k \in 1..Len(hist) : hist[k].node = e.from.node} :
    \E full \in {SubSeq(hist, 1, k0 - 1)
                  \o <<[hist[k0] EXCEPT !.ups = @ \o e.from.ups, !.node = e.from.last]>>
                  \o [k \in 1..Len(e.follow) |-> [t |-> e.follow[k].t, u |-> e.follow[k].u, ups |-> e.follow[k].ups, node |-> e.follow[k].last]]} :
    \E all \in {ms \cup {m}} :
    \E imus \in {{x \in all : x.kind = "imu"}} :
    LET newest == IF b.t > top THEN b.t ELSE top
        n == Len(e.states)
        d == Len(full) - n
        kept == SubSeq(full, d + 1, Len(full))
        undone == UNION {ToSet(hist[k].ups) : k \in (k0 + 1)..Len(hist)}
    IN /\ n > 0
       /\ d >= 0
       \* (compared with TRUE so that TLC evaluates it as a value and does not branch)
       /\ TRUE = (
           /\ \A k \in 1..n : e.states[k][2] = kept[k].node /\ Abs(e.states[k][1] - kept[k].t) <= 1 /\ (Order => e.states[k][3] = kept[k].u)
           /\ Bounds =>
                /\ kept[1].t >= newest - Window - Tie
                /\ e.qn >= 1 /\ e.qold >= newest - Window - 1
                /\ Near(kept[n].t, newest) \/ kept[n].t >= newest
                /\ d > 0 => full[d].t <= newest - Window + Tie \/ n >= Capacity
           /\ Order =>
                /\ \A k \in k0..(Len(full) - 1) : Propagated(full[k], full[k + 1], imus)
                /\ m.kind = "imu" => \A k \in 1..(k0 - 1) : m.t > hist[k + 1].t \/ Propagated(hist[k], hist[k + 1], {x \in imus : x.id = m.id \/ x.id = hist[k + 1].u})
                /\ \A k \in k0..Len(full) : Fused(full[k], all)
                \* what was undone is fused again, and the new measurement is fused, once each
                /\ ToSet(e.ups) = undone \cup (IF m.kind = "imu" THEN {} ELSE {m.id})
                /\ Len(e.ups) = Cardinality(ToSet(e.ups))
          )
       /\ hist' = kept
       /\ ms' = {x \in all : x.t >= kept[1].t - 4 * Tie}
       /\ top' = newest
       /\ fp' = e.fp /\ qn' = e.qn

Add(e) ==
    /\ call.kind /= "none" /\ call' = NoCall
    /\ e.id = call.id
    /\ IF e.ok THEN TRUE = (Bounds => ~MustReject(call)) /\ Accepted0(e, call)
       ELSE /\ TRUE = (Bounds => ~MustAccept(call) /\ Unaltered(e))
            /\ UNCHANGED <<hist, ms, top, fp, qn>>
    /\ UNCHANGED reg

Step(e) ==
    \/ e.op = "new" /\ hist' = <<[t |-> e.t, u |-> 0, ups |-> <<>>, node |-> 0]>> /\ ms' = {} /\ top' = e.t
                    /\ reg' = [c \in 0..2 |-> <<>>] /\ call' = NoCall /\ fp' = e.fp /\ qn' = e.qn
                    /\ Len(e.states) = 1 /\ e.states[1][1] = e.t
    \/ e.op = "eph" /\ Eph(e) /\ UNCHANGED <<hist, ms, top, call, fp, qn>>
    \/ e.op = "begin" /\ call.kind = "none" /\ call' = e /\ UNCHANGED <<hist, ms, top, reg, fp, qn>>
    \/ e.op = "add" /\ Add(e)
Init == /\ l = 1 /\ hist = <<>> /\ ms = {} /\ top = 0 /\ reg = [c \in 0..2 |-> <<>>] /\ call = NoCall /\ fp = <<>> /\ qn = 0
Next == l <= Len(Log) /\ (\E e \in {Log[l]} : Step(e)) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
=============================================================================
