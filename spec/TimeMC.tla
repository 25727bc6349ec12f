------------------------------ MODULE TimeMC ------------------------------
(* The arithmetic of TimeStamps is that of the integers, checked on all small *)
(* numbers with a tiny base (so that every carry and borrow occurs), and the  *)
(* comparisons are those of a total order.                                    *)
EXTENDS TimeStamps
VARIABLES a, b, c
S == {<<h2, h1, lo, ns>> : h2 \in -1..1, h1 \in 0..LB-1, lo \in 0..LB-1, ns \in 0..NB-1}
Val(t) == ((t[1] * LB + t[2]) * LB + t[3]) * NB + t[4]
Init == a \in S /\ b \in S /\ c \in S
Next == UNCHANGED <<a, b, c>>
Spec == Init /\ [][Next]_<<a, b, c>>
Exact == /\ Val(Add(a, b)) = Val(a) + Val(b) /\ Canonical(Add(a, b))
         /\ Val(Sub(a, b)) = Val(a) - Val(b) /\ Canonical(Sub(a, b))
Undo == Sub(Add(a, b), b) = a /\ Add(Sub(a, b), b) = a
Order == /\ Lt(a, b) <=> (Val(a) < Val(b))
         /\ (a = b) <=> (Val(a) = Val(b))
         /\ (Lt(a, b) /\ Lt(b, c) => Lt(a, c))
         /\ (Lt(a, b) => Lt(Add(a, c), Add(b, c)))
Quantised == QCompare(a, b, 1) \subseteq {QEqual, QLess, QGreater}
=============================================================================
