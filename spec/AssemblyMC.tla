----------------------------- MODULE AssemblyMC -----------------------------
(* Consequences of Assembly over every sequence of at most Depth messages;    *)
(* also prints those sequences as workloads (Emit).                           *)
(* A message is <<kind, issue or mark, serial number, harm>>.                 *)
EXTENDS Assembly, TLC
CONSTANTS System, Issues, Depth, Harms, Printing, Disturbances
(* hist: every message; yields: what was delivered, and when; free: the positions at which anything may arrive *)
(* (elsewhere the broadcast goes on).                                                                          *)
VARIABLES s, hist, yields, free
KindsOf == CASE System = "gps" -> 1..3 [] System = "gal" -> 0..5 [] System = "glo" -> 1..5
Issue(m) == m[2]
Fresh == CASE System = "gps" -> GpsNew [] System = "gal" -> GalNew [] System = "glo" -> GloNew
Init == /\ s = Fresh /\ hist = <<>> /\ yields = <<>>
        /\ free \in IF Disturbances >= Depth THEN {1..Depth} ELSE {x \in SUBSET (1..Depth) : Cardinality(x) = Disturbances}
Latest(t) == LET last == IF System = "gps" THEN t ELSE t.last IN {last[k] : k \in DOMAIN last}
Deliver(t, rest) == yields' = Append(yields, [n |-> Len(hist) + 1, what |-> Latest(t)]) /\ s' = rest
Receive(m) ==
    /\ hist' = Append(hist, m)
    /\ IF m[4] /= "ok" THEN UNCHANGED <<s, yields>>
       ELSE CASE System = "gps" -> LET t == GpsTake(s, m[1], m) IN IF GpsReady(t, Issue) THEN Deliver(t, GpsNew) ELSE s' = t /\ UNCHANGED yields
              [] System = "gal" -> LET t == GalTake(s, m[1], m) IN
                                     \/ GalMay(t, Issue) /\ Deliver(t, GalDelivered(t))
                                     \/ ~GalMust(t, Issue) /\ s' = t /\ UNCHANGED yields
              [] System = "glo" -> LET t == GloTake(s, m[1], m[2], m) IN IF GloReady(t, m[1]) THEN Deliver(t, t) ELSE s' = t /\ UNCHANGED yields
First == CASE System = "gps" -> <<1, 1>> [] System = "gal" -> <<2, 1>> [] System = "glo" -> <<1, 1>>
After(m) == <<IF m[1] + 1 \in KindsOf THEN m[1] + 1 ELSE CHOOSE k \in KindsOf : \A j \in KindsOf : k <= j, m[2]>>
Next == /\ Len(hist) < Depth /\ UNCHANGED free
        /\ IF Len(hist) + 1 \in free
           THEN \E k \in KindsOf, i \in Issues, h \in Harms : Receive(<<k, i, Len(hist) + 1, h>>)
           ELSE LET m == IF hist = <<>> THEN First ELSE After(hist[Len(hist)]) IN Receive(<<m[1], m[2], Len(hist) + 1, "ok">>)
Spec == Init /\ [][Next]_<<s, hist, yields, free>>

(* what is delivered holds one intact message of every kind, all of one issue (mark) *)
Issued(ms) == IF System = "gal" THEN {m \in ms : m[1] \in 1..4} ELSE ms
Whole == \A y \in 1..Len(yields) : LET ms == yields[y].what IN
            /\ {m[1] : m \in ms} = KindsOf /\ Cardinality(ms) = Cardinality(KindsOf)
            /\ \A m \in ms : m[4] = "ok" /\ m = hist[m[3]] /\ m[3] <= yields[y].n
            /\ Cardinality({m[2] : m \in Issued(ms)}) = 1
(* and no message of a kind is used when a later intact one had arrived *)
Newest == \A y \in 1..Len(yields) : \A m \in yields[y].what :
            \A n \in m[3] + 1..yields[y].n : ~(hist[n][1] = m[1] /\ hist[n][4] = "ok")
(* GPS: never the same message twice. GLONASS: always on string 5 *)
Once == System = "gps" => \A y, z \in 1..Len(yields) : y < z => yields[y].what \cap yields[z].what = {}
OnFive == System = "glo" => \A y \in 1..Len(yields) : hist[yields[y].n][1] = 5
(* Completeness: an undisturbed run of every kind of one issue (in any order for GPS; beginning with word 2 for *)
(* Galileo; ending with string 5 for GLONASS), is delivered with its last message at the latest.                *)
N == Cardinality(KindsOf)
Recent(n) == {hist[k] : k \in Len(hist) - n + 1..Len(hist)}
Undisturbed ==
            /\ Len(hist) >= N
            /\ {m[1] : m \in Recent(N)} = KindsOf
            /\ \A m \in Recent(N) : m[4] = "ok"
            /\ Cardinality({m[2] : m \in Recent(N)}) = 1
            /\ System = "gal" => hist[Len(hist) - N + 1][1] = 2
            /\ System = "glo" => hist[Len(hist)][1] = 5
Complete == Undisturbed => \E y \in 1..Len(yields) : yields[y].n > Len(hist) - N
Str(x) == ToString(x)
Emit == (Printing /\ Len(hist) = Depth) =>
    PrintT(<<"GEN", "new">> \o [k \in 1..Depth |-> Str(hist[k][1]) \o " " \o Str(hist[k][2]) \o " " \o hist[k][4]])
=============================================================================
