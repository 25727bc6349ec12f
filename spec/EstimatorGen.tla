----------------------------- MODULE EstimatorGen -----------------------------
(* Every order of arrival of N measurements over a few stamps and kinds. The  *)
(* stamps are scaled by the replay.                                           *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Stamps, Kinds, N
VARIABLES cmds
Init == cmds = <<>>
Next == \E t \in Stamps, k \in Kinds : cmds' = Append(cmds, k \o " " \o ToString(t))
Spec == Init /\ [][Next]_cmds
Short == Len(cmds) < N
Emit == Len(cmds) = N => PrintT(<<"GEN">> \o cmds)
=============================================================================
