------------------------------- MODULE ImuMC -------------------------------
(* All short histories of samples and splits: intervals, in order.            *)
EXTENDS Imu, FiniteSets
CONSTANTS Samples, Splits, Inputs
VARIABLES parts, given, cuts
vars == <<parts, given, cuts>>
Gaps == {80, 120, 240}
First == [t |-> 0, a |-> 18, w |-> 0]
Init == parts = <<<<First>>>> /\ given = <<First>> /\ cuts = {}
Last1 == Len(parts)
Integrate ==
    \E g \in Gaps : \E a \in Inputs :
       LET s == [t |-> End(parts[Last1]) + g, a |-> a, w |-> -a]
       IN /\ Len(given) < Samples /\ Accepts(parts[Last1], s.t)
          /\ parts' = [parts EXCEPT ![Last1] = Append(@, s)] /\ given' = Append(given, s) /\ cuts' = cuts
Cut ==
    \E k \in 1..Len(parts) : \E q \in 0..30 :
       LET t == 40 * q h == parts[k]
       IN /\ Cardinality(cuts) < Splits /\ Len(h) > 1 /\ Inner(h, t) /\ ~TooClose(h, t)
          /\ parts' = SubSeq(parts, 1, k - 1) \o <<Left(h, t), Right(h, t)>> \o SubSeq(parts, k + 1, Len(parts))
          /\ cuts' = cuts \cup {t} /\ given' = given
Next == Integrate \/ Cut
Spec == Init /\ [][Next]_vars
Ends(x) == \E i \in 1..Len(given) : Size(given[i].t - x) <= Half
\* every interval has a length, and samples at least a quantum apart
WellFormed == \A k \in 1..Len(parts) : \A i \in 2..Len(parts[k]) : parts[k][i].t - parts[k][i - 1].t >= Quantum
\* intervals meet, and span what was given
Meet == /\ Start(parts[1]) = given[1].t /\ End(parts[Last1]) = End(given)
        /\ \A k \in 2..Len(parts) : Size(Start(parts[k]) - End(parts[k - 1])) <= Half /\ Start(parts[k]) \in cuts
\* each given sample is in exactly one interval, or where two meet
Once == \A i \in 1..Len(given) :
          LET n == Cardinality({<<k, j>> \in (1..Len(parts)) \X (1..Len(given) + 1) : j <= Len(parts[k]) /\ Size(parts[k][j].t - given[i].t) <= Half})
              meets == Cardinality({k \in 2..Len(parts) : Size(Start(parts[k]) - given[i].t) <= Half})
          IN n = 1 + meets
\* nothing but given samples inside, and only cuts besides them
NoOthers == \A k \in 1..Len(parts) : \A j \in 1..Len(parts[k]) :
              \/ \E i \in 1..Len(given) : parts[k][j] = given[i]
              \/ (j = 1 \/ j = Len(parts[k])) /\ parts[k][j].t \in cuts
\* the area under the inputs, as counted with exact ends
Area(h) == FoldLeft(LAMBDA s, i : s + (h[i].a + h[i - 1].a) * (h[i].t - h[i - 1].t), 0, [i \in 1..(Len(h) - 1) |-> i + 1])
Exact == \A c \in cuts : \A i \in 1..Len(given) : given[i].t = c \/ Size(given[i].t - c) > Half
Additive == Exact => FoldLeft(LAMBDA s, h : s + Area(h), 0, parts) = Area(given)
=============================================================================
