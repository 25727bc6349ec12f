------------------------------- MODULE ObsTrace -------------------------------
(* Whenever a bundle of satellite observations is fused, what reaches the     *)
(* measurement model is the bundle: each observation once, with its own       *)
(* measurement, the current orbit of its satellite and the clock of its       *)
(* constellation. A satellite is named by constellation * 256 + number.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Trace
CONSTANTS Cap
VARIABLES l, reg, bundles
vars == <<l, reg, bundles>>
\* the satellites registered, in the order of discovery, bounded
Discover(r, s) == IF \E k \in 1..Len(r) : r[k] = s THEN r
                  ELSE IF Len(r) = Cap THEN Append(Tail(r), s) ELSE Append(r, s)
Registered(n) == LET c == n \div 256 IN c <= 2 /\ \E k \in 1..Len(reg[c]) : reg[c][k] = n % 256
\* observation k of a bundle as the model should see it
Right(o, id, sats) ==
    \E k \in 1..Len(sats) :
        /\ o.code = id * 64 + k - 1 /\ o.dop
        /\ o.g = sats[k] \div 256
        /\ \E j \in 1..Len(o.sat) : o.sat[j] = sats[k]
        /\ o.clk = <<sats[k] \div 256>> /\ o.jac = <<sats[k] \div 256>>
Use(u) ==
    IF u.id = -1 THEN u.o = <<>>
    ELSE LET b == bundles[u.id]
             live == {k \in 1..Len(b) : Registered(b[k])}
         IN /\ Len(u.o) = Cardinality(live)
            /\ {u.o[k].code : k \in 1..Len(u.o)} = {u.id * 64 + k - 1 : k \in live}
            /\ \A k \in 1..Len(u.o) : Right(u.o[k], u.id, b)
Step(e) ==
    \/ e.op = "new" /\ reg' = [c \in 0..2 |-> <<>>] /\ bundles' = <<>>
    \/ e.op = "eph" /\ reg' = [reg EXCEPT ![e.c] = Discover(@, e.s)] /\ UNCHANGED bundles
    \/ e.op = "begin" /\ bundles' = (IF e.kind = "obs" THEN (e.id :> e.sats) @@ bundles ELSE bundles) /\ UNCHANGED reg
    \/ e.op = "add" /\ TRUE = (\A k \in 1..Len(e.uses) : Use(e.uses[k])) /\ UNCHANGED <<reg, bundles>>
                    /\ TRUE = (e.kind = "obs" /\ e.ok /\ bundles[e.id] /= <<>> => \E k \in 1..Len(e.uses) : e.uses[k].id = e.id)
Init == l = 1 /\ reg = [c \in 0..2 |-> <<>>] /\ bundles = <<>>
Next == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
=============================================================================
