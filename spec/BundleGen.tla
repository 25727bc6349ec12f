------------------------------- MODULE BundleGen -------------------------------
(* Bundles over two satellites of each of the three constellations, arriving  *)
(* in and out of order.                                                       *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Stamps, N, Size
VARIABLES cmds
Sat == {<<c, s>> : c \in 0..2, s \in {1, 2}}
RECURSIVE Text(_)
Text(b) == IF b = <<>> THEN "" ELSE " " \o ToString(Head(b)[1]) \o ":" \o ToString(Head(b)[2]) \o Text(Tail(b))
Bundles == UNION {{b \in [1..n -> Sat] : \A i, j \in 1..n : i /= j => b[i] /= b[j]} : n \in 1..Size}
Init == cmds = <<>>
Next == \E t \in Stamps, b \in Bundles : cmds' = Append(cmds, ToString(t) \o Text(b))
Spec == Init /\ [][Next]_cmds
Short == Len(cmds) < N
Emit == Len(cmds) = N => PrintT(<<"GEN">> \o cmds)
=============================================================================
