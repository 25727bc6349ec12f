------------------------------- MODULE UbxGen -------------------------------
(* Streams as sequences of pieces of every kind; an intact message ends each. *)
EXTENDS Integers, Sequences, TLC
CONSTANT Depth
VARIABLE s
Kinds == {"empty", "short", "long", "full", "over", "cut", "sync", "class", "type", "lenlo", "lenhi", "payload", "cka", "ckb",
          "noise", "sync1", "sync12", "endsync", "inner"}
Init == s = <<>>
Next == \E k \in Kinds : Len(s) < Depth /\ s' = Append(s, k)
        /\ PrintT(<<"GEN", "new">> \o s')
Spec == Init /\ [][Next]_s
=============================================================================
