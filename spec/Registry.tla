------------------------------ MODULE Registry ------------------------------
(* The satellite registry: for each constellation a bounded table of          *)
(* satellites, the longest registered first, each with its almanac.           *)
EXTENDS Almanac
CONSTANT Cap               \* satellites a constellation's table holds
VARIABLE reg               \* constellation -> sequence of [sat, alm]

Constellations == DOMAIN reg
Position(c, s) == {k \in 1..Len(reg[c]) : reg[c][k].sat = s}
Registered(c, s) == c \in Constellations /\ Position(c, s) /= {}
The(c, s) == reg[c][CHOOSE k \in Position(c, s) : TRUE]

\* an ephemeris of a satellite arrives
Arrive(c, s, epoch, id) ==
    LET new == [sat |-> s, alm |-> Keep(Empty, epoch, id)] IN
    reg' = [reg EXCEPT ![c] =
        IF Registered(c, s) THEN [k \in 1..Len(@) |-> IF @[k].sat = s THEN [@[k] EXCEPT !.alm = Keep(@, epoch, id)] ELSE @[k]]
        ELSE IF Len(@) = Cap THEN Append(Tail(@), new) ELSE Append(@, new)]
=============================================================================
