----------------------------- MODULE LatticeMC -----------------------------
(* The depth-first search for the best integer vectors, as a machine over     *)
(* exact numbers, finds the best ones for every problem of the domain; and    *)
(* Within, the reading by which recordings are judged, is the whole set.      *)
EXTENDS Lattice, TLC
CONSTANTS N, Ds, Us, P, M, K, Reach
VARIABLES q, k, z, step, dist, chi, best, done
vars == <<q, k, z, step, dist, chi, best, done>>
Fs == 0..M - 1
Rows(w) == {r \in [1..N -> Us \cup {P}] : r[w] = P /\ \A j \in 1..N : j /= w => r[j] \in Us /\ (j < w => r[j] = 0)}
Problems == {[n |-> N, d |-> d, u |-> u, p |-> P, f |-> f, m |-> M] :
    d \in [1..N -> Ds], f \in [1..N -> Fs], u \in {v \in [1..N -> UNION {Rows(w) : w \in 1..N}] : \A w \in 1..N : v[w] \in Rows(w)}}
W == M * P
\* the centre of z[i] given the later ones (times m p), the nearest integer, on which side the centre lies
Centre(p, y, i) == -Off(p, [y EXCEPT ![i] = 0], i)
Near(c) == (2 * c + W) \div (2 * W)
Side(c, y) == IF c - W * y >= 0 THEN 1 ELSE -1
Init == /\ q \in Problems /\ k = N /\ dist = [i \in 1..N |-> 0] /\ chi = -1 /\ best = {} /\ done = FALSE
        /\ z = [i \in 1..N |-> IF i = N THEN Near(Centre(q, [j \in 1..N |-> 0], N)) ELSE 0]
        /\ step = [i \in 1..N |-> IF i = N THEN Side(Centre(q, [j \in 1..N |-> 0], N), Near(Centre(q, [j \in 1..N |-> 0], N))) ELSE 0]
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
NewDist == dist[k] + q.d[k] * Off(q, z, k) * Off(q, z, k)
Worst(B) == CHOOSE e \in B : \A o \in B : e.c >= o.c
Down == /\ ~done /\ (chi < 0 \/ NewDist < chi) /\ k > 1
        /\ LET c == Centre(q, z, k - 1) IN
           /\ k' = k - 1 /\ dist' = [dist EXCEPT ![k - 1] = NewDist]
           /\ z' = [z EXCEPT ![k - 1] = Near(c)] /\ step' = [step EXCEPT ![k - 1] = Side(c, Near(c))]
        /\ UNCHANGED <<q, chi, best, done>>
Advance(i) == z' = [z EXCEPT ![i] = @ + step[i]] /\ step' = [step EXCEPT ![i] = -@ - Sign(@)]
Found == /\ ~done /\ (chi < 0 \/ NewDist < chi) /\ k = 1
         /\ LET more == best \cup {[z |-> z, c |-> NewDist]} IN
            best' = IF Cardinality(more) > K THEN more \ {Worst(best)} ELSE more
         /\ chi' = IF Cardinality(best') = K THEN Worst(best').c ELSE -1
         /\ Advance(1) /\ UNCHANGED <<q, k, dist, done>>
Up == /\ ~done /\ chi >= 0 /\ NewDist >= chi
      /\ IF k = N THEN done' = TRUE /\ UNCHANGED <<k, z, step>>
         ELSE done' = FALSE /\ k' = k + 1 /\ Advance(k + 1)
      /\ UNCHANGED <<q, dist, chi, best>>
Next == Down \/ Found \/ Up
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Box(n) == [1..n -> -Reach..Reach]
Brute == {[z |-> y, c |-> Cost(q, y)] : y \in Box(N)}
Optimal == done => Least(best, K) = Least(Within(q, Worst(best).c), K)
\* Within is complete on a box
Complete == (k = N /\ best = {} /\ chi = -1) => LET c == Cost(q, [i \in 1..N |-> 1]) IN {e \in Within(q, c) : \A i \in 1..N : e.z[i] \in -Reach..Reach} = {e \in Brute : e.c <= c}
Ends == <>done
=============================================================================
