----------------------------- MODULE MeasureGen -----------------------------
(* Abstract histories: which models are made and looked at, in which order,   *)
(* with which derivatives asked for.                                          *)
EXTENDS Integers, Sequences, TLC
CONSTANT Depth
VARIABLES s, m, has
Makes == {<<"prange", "plain">>, <<"prange", "correlated">>, <<"prange", "jump">>, <<"phase", "same">>, <<"phase", "jump">>, <<"phase", "otherSat">>, <<"phase", "otherSys">>,
          <<"phase", "otherFreq">>, <<"phase", "foreign">>, <<"phase", "foreignSys">>, <<"clock", "">>, <<"prior", "">>}
Masks == {"none", "one", "some", "all"}
Slots == {1, 2}
Init == s = <<>> /\ m = 0 /\ has = [i \in Slots |-> ""]
Next == /\ m < Depth /\ m' = m + 1
        /\ \/ \E k \in Slots : \E x \in Makes : (m > 0 \/ k = 1) /\ s' = s \o <<x[1], ToString(k), x[2]>> /\ has' = [has EXCEPT ![k] = x[1]]
           \/ \E k \in Slots : \E x \in Masks : has[k] # "" /\ s' = s \o <<"at", ToString(k), x>> /\ UNCHANGED has
        /\ ((m' = Depth /\ m = Depth - 1) => PrintT(<<"GEN", "new">> \o s'))
Spec == Init /\ [][Next]_<<s, m, has>>
=============================================================================
