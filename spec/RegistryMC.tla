----------------------------- MODULE RegistryMC -----------------------------
(* Consequences of Registry, checked over its whole (small) state space.      *)
EXTENDS Registry, TLC
CONSTANTS Sats, MaxArrivals
VARIABLES n, hist                      \* hist: <<constellation, satellite>> of every arrival
C == {0, 1}
Init == reg = [c \in C |-> <<>>] /\ n = 0 /\ hist = <<>>
Next == \E c \in C, s \in Sats, e \in {0, 1} : n < MaxArrivals /\ n' = n + 1 /\ Arrive(c, s, e, n + 1) /\ hist' = Append(hist, <<c, s>>)
Spec == Init /\ [][Next]_<<reg, n, hist>>
Names(c) == {reg[c][k].sat : k \in 1..Len(reg[c])}
Bounded == \A c \in C : Len(reg[c]) <= Cap /\ Cardinality(Names(c)) = Len(reg[c])
OnlyTold == \A c \in C : \A s \in Names(c) : \E k \in 1..n : hist[k] = <<c, s>>
\* nobody is dropped while there is room
NoneLostWithRoom == \A c \in C : Cardinality({hist[k][2] : k \in {j \in 1..n : hist[j][1] = c}}) <= Cap
                        => Names(c) = {hist[k][2] : k \in {j \in 1..n : hist[j][1] = c}}
\* the satellite just heard of is there, and an arrival touches its own constellation only
JustHeard == n > 0 => Registered(hist[n][1], hist[n][2])
OwnOnly == [][\A c \in C : hist'[n + 1][1] /= c => reg'[c] = reg[c]]_<<reg, n, hist>>
\* what is dropped is the longest registered, one at a time, and only for a new one
DropsOldest == [][\A c \in C : LET gone == Names(c) \ {reg'[c][k].sat : k \in 1..Len(reg'[c])} IN
                    gone /= {} => gone = {reg[c][1].sat} /\ Len(reg[c]) = Cap /\ hist'[n + 1][2] \notin Names(c)]_<<reg, n, hist>>
\* every ephemeris since a satellite was last registered is still there (latest per epoch)
Complete == \A c \in C : \A k \in 1..Len(reg[c]) : DOMAIN reg[c][k].alm /= {}
=============================================================================
