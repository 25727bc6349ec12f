----------------------------- MODULE EstimatorMC -----------------------------
(* A design of the delayed-state estimator: a time ordered queue of the       *)
(* measurements and a history of states, rewound and rolled forward. It must  *)
(* satisfy the rules of Estimator for every order of arrival. With            *)
(* Rewind = "strict" (states strictly later than the measurement are undone,  *)
(* and rolling starts at the new measurement) it does not.                    *)
EXTENDS Estimator, TLC
CONSTANTS Stamps, Kinds, N, Rewind
VARIABLES queue,    \* accepted measurements of the window, in time order (ties: kind, then arrival)
          hist,     \* retained states
          acc,      \* all accepted measurements
          gone      \* measurements fused in states that have left the history
vars == <<queue, hist, acc, gone>>
Rank(k) == CASE k = "imu" -> 0 [] k = "obs" -> 1 [] k = "pp" -> 2
Before(m, n) == m.t < n.t \/ (m.t = n.t /\ (Rank(m.kind) < Rank(n.kind)))
Insert(q, m) == LET k == Cardinality({i \in 1..Len(q) : ~Before(m, q[i])}) IN InsertAt(q, k + 1, m)
Quantized(a, b) == a > b + Tie      \* a is later than the instant of b
\* one measurement applied to a history
Apply(h, m) ==
    LET last == h[Len(h)]
        moved == IF Quantized(m.t, last.t)
                 THEN Append(h, [t |-> m.t, u |-> IF m.kind = "imu" THEN m.id ELSE last.u, ups |-> <<>>]) ELSE h
    IN IF m.kind = "imu" THEN moved
       ELSE [moved EXCEPT ![Len(moved)].ups = Append(@, m.id)]
Roll(h, q) == FoldSeq(LAMBDA m, a : Apply(a, m), h, q)
Ahead(h, q, k) ==
    LET last == h[Len(h)] IN
    \/ last.t > q[k].t
    \/ \E j \in (k + 1)..Len(q) : ~Quantized(q[j].t, last.t) /\ q[j].kind /= "imu"
RECURSIVE Back(_, _, _)
Back(h, q, k) == IF Len(h) > 1 /\ Ahead(h, q, k) THEN Back(SubSeq(h, 1, Len(h) - 1), q, k) ELSE h
Whole(q, m) ==
    LET k == CHOOSE i \in 1..Len(q) : q[i].id = m.id
        h == Back(hist, q, k)
        undone == Len(h) < Len(hist)
        start == IF undone THEN hist[Len(h) + 1].t ELSE m.t
        from == CHOOSE i \in 1..(Len(q) + 1) : (\A j \in 1..(i - 1) : q[j].t < start) /\ (i <= Len(q) => q[i].t >= start)
    IN IF ~Ahead(h, q, k) THEN Roll(h, SubSeq(q, IF start > m.t \/ ~undone THEN k ELSE from, Len(q)))
       ELSE LET one == Apply(h, m)
                rest == SelectSeq(SubSeq(q, k + 1, Len(q)), LAMBDA x : Quantized(x.t, one[Len(one)].t))
            IN Roll(one, rest)
RECURSIVE StrictBack(_, _)
StrictBack(h, t) == IF Len(h) > 1 /\ h[Len(h)].t > t THEN StrictBack(SubSeq(h, 1, Len(h) - 1), t) ELSE h
Strict(q, m) ==
    LET k == CHOOSE i \in 1..Len(q) : q[i].id = m.id IN Roll(StrictBack(hist, m.t), SubSeq(q, k, Len(q)))
Drop(h, t) == SelectSeq(h, LAMBDA s : s.t >= t - Window)
Trim(h) == IF Len(h) > Capacity THEN SubSeq(h, Len(h) - Capacity + 1, Len(h)) ELSE h
Accept(m) ==
    LET q == Insert(queue, m)
        h == Trim(IF Rewind = "strict" THEN Strict(q, m) ELSE Whole(q, m))
        t == q[Len(q)].t
        kept == Drop(h, t)
        all == IF Rewind = "strict" THEN h ELSE Whole(q, m)
        ups(x) == ToSet(AllUps(x))
        lost == ToSet(AllUps(SubSeq(all, 1, Len(all) - Len(kept))))
    IN /\ acc' = acc \cup {m}
       /\ queue' = SelectSeq(q, LAMBDA x : x.t >= t - Window)
       /\ hist' = kept
       /\ gone' = gone \cup lost
Init == queue = <<>> /\ hist = <<[t |-> 0, u |-> 0, ups |-> <<>>]>> /\ acc = {} /\ gone = {}
Arrive(t, k) ==
    LET m == [id |-> Cardinality(acc) + 1, t |-> t, kind |-> k] IN
    /\ Cardinality(acc) < N
    /\ t >= hist[1].t - Tie
    /\ Accept(m)
Next == \E t \in Stamps, k \in Kinds : Arrive(t, k)
Spec == Init /\ [][Next]_vars
Imus == {m \in acc : m.kind = "imu"}
\* -------------------------------------------------------------------------- the rules hold
NeverEmpty == hist /= <<>>
InOrder == \A k \in 1..(Len(hist) - 1) : Propagated(hist[k], hist[k + 1], Imus)
AtItsTime == \A k \in 1..Len(hist) : Fused(hist[k], acc)
EachOnce ==
    LET a == AllUps(hist) IN
    /\ IsInjective(a)
    /\ ToSet(a) \cap gone = {}
    /\ ToSet(a) \cup gone = {m.id : m \in acc \ Imus}
Bounded == acc = {} \/ (hist[1].t >= Newest(acc) - Window /\ Len(hist) <= Capacity)
\* the last state is at the newest instant
Current == Near(hist[Len(hist)].t, Max({0} \cup {m.t : m \in acc})) \/ hist[Len(hist)].t >= Max({0} \cup {m.t : m \in acc})
=============================================================================
