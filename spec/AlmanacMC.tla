----------------------------- MODULE AlmanacMC -----------------------------
(* The design that keeps a list ordered by epoch, with replacement, and       *)
(* searches it from the newest end, giving up as soon as the distance no      *)
(* longer shrinks, always answers as Almanac requires. (Sorted = FALSE: new   *)
(* ephemerides are appended; TLC shows that this is not enough.)              *)
EXTENDS Almanac, TLC
CONSTANTS Epochs, Instants, MaxArrivals, Sorted
VARIABLES list, alm, n
Entry(e, i) == [epoch |-> e, id |-> i]
\* the position before the first later epoch
Place(s, e) == CHOOSE k \in 0..Len(s) : /\ \A j \in 1..k : s[j].epoch < e
                                        /\ k < Len(s) => s[k + 1].epoch > e
Insert(s, e, i) ==
    IF \E k \in 1..Len(s) : s[k].epoch = e THEN [k \in 1..Len(s) |-> IF s[k].epoch = e THEN Entry(e, i) ELSE s[k]]
    ELSE IF ~Sorted THEN Append(s, Entry(e, i))
    ELSE LET k == Place(s, e) IN SubSeq(s, 1, k) \o <<Entry(e, i)>> \o SubSeq(s, k + 1, Len(s))
RECURSIVE Scan(_, _, _)
Scan(s, t, best) ==
    IF s = <<>> THEN best
    ELSE LET x == s[Len(s)] IN
        IF best = <<>> \/ Dist(x.epoch, t) < Dist(best[1].epoch, t) THEN Scan(SubSeq(s, 1, Len(s) - 1), t, <<x>>)
        ELSE best
Init == list = <<>> /\ alm = Empty /\ n = 0
Next == \E e \in Epochs : n < MaxArrivals /\ n' = n + 1 /\ list' = Insert(list, e, n + 1) /\ alm' = Keep(alm, e, n + 1)
Spec == Init /\ [][Next]_<<list, alm, n>>
OnePerEpoch == /\ Len(list) = Cardinality(DOMAIN alm)
               /\ \A k \in 1..Len(list) : alm[list[k].epoch] = list[k].id
Ordered == \A k \in 1..Len(list) - 1 : list[k].epoch < list[k + 1].epoch
AnswersClosest == list /= <<>> => \A t \in Instants : Scan(list, t, <<>>)[1].id \in Answers(alm, t)
LatestReceived == \A x \in DOMAIN alm : \A y \in DOMAIN alm : x /= y => alm[x] /= alm[y]
=============================================================================
