------------------------------ MODULE Estimator ------------------------------
(* What a history of filter states has to look like, given the measurements   *)
(* accepted so far. A state of the history is a record                        *)
(*   [t   its time,                                                           *)
(*    u   the inertial input that propagated to it (0: the initial one),      *)
(*    ups the measurements fused in it, in order]                             *)
(* Stamps closer than Tie are the same instant to the estimator (it rounds    *)
(* times); at exactly Tie either reading is allowed.                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
CONSTANTS Tie,      \* half the time quantum
          Window,   \* the history reaches this far back
          Capacity  \* and holds at most this many states

Abs(x) == IF x < 0 THEN -x ELSE x
Near(a, b) == Abs(a - b) <= Tie
\* rounding of a state's time
Same(a, b) == Abs(a - b) <= 1 /\ Near(a, b)

Count(h) == Len(h)
Newest(ms) == Max({m.t : m \in ms})

\* propagation from state a to its successor b used the inputs that precede b, and skipped none
Propagated(a, b, imus) ==
    /\ a.t <= b.t
    /\ ~\E m \in imus : a.t + Tie < m.t /\ m.t < b.t - Tie
    /\ \/ b.u = a.u /\ ~\E m \in imus : m.t = b.t /\ ~Near(m.t, a.t)
       \/ \E m \in imus : m.id = b.u /\ Same(m.t, b.t)

\* every measurement fused in a state belongs to the state's instant
Fused(s, ms) == \A k \in 1..Len(s.ups) : \E m \in ms : m.id = s.ups[k] /\ m.kind /= "imu" /\ Near(m.t, s.t)
AllUps(h) == FlattenSeq([k \in 1..Len(h) |-> h[k].ups])
=============================================================================
