----------------------------- MODULE NavGlonass -----------------------------
(* The GLONASS navigation message, as words of a receiver: 16 bytes, four    *)
(* little-endian words; the first 85 bits are the string (bits 85 down to 1  *)
(* of the ICD), the upper half of the last word is the receiver's time mark. *)
EXTENDS NavBits, Assembly
RawBit(b, p) == LET k == 31 - (p % 32) IN (b[(p \div 32) * 4 + (k \div 8) + 1] \div 2^(k % 8)) % 2

(* The Hamming code of the ICD: bit n of the string is RawBit(85 - n). C(1)..C(7) cover the information bits *)
(* listed and one check bit each, the last check covers all bits.                                             *)
Runs(start, len, gap, upto) == {n \in start..upto : (n - start) % (len + gap) < len}
Covered == <<
    {9, 10, 12, 13, 15, 17, 19, 20, 22, 24, 26, 28, 30, 32, 34, 35, 37, 39, 41, 43, 45, 47, 49, 51, 53, 55, 57, 59, 61, 63,
     65, 66, 68, 70, 72, 74, 76, 78, 80, 82, 84},
    {9, 11, 12, 14, 15, 18, 19, 21, 22, 25, 26, 29, 30, 33, 34, 36, 37, 40, 41, 44, 45, 48, 49, 52, 53, 56, 57, 60, 61, 64,
     65, 67, 68, 71, 72, 75, 76, 79, 80, 83, 84},
    (10..12) \cup (16..19) \cup Runs(23, 4, 4, 34) \cup Runs(38, 4, 4, 65) \cup Runs(69, 4, 4, 80) \cup {85},
    (13..19) \cup (27..34) \cup Runs(42, 8, 8, 65) \cup Runs(73, 8, 8, 80),
    (20..34) \cup (50..65) \cup (81..85),
    35..65,
    66..85 >>
Check(b, i) == Cardinality({n \in Covered[i] \cup {i} : RawBit(b, 85 - n) = 1}) % 2
Sum(b) == Cardinality({n \in 1..85 : RawBit(b, 85 - n) = 1}) % 2
(* all checks pass, or a single check bit is damaged, which leaves the information intact *)
Intact(b) == \E failed \in { {i \in 1..7 : Check(b, i) = 1} } :
                \/ failed = {} /\ Sum(b) = 0
                \/ Cardinality(failed) = 1 /\ Sum(b) = 1

StringNumber(b) == LET Bit(p) == RawBit(b, p) IN U16(Bit, 1, 4)
TimeMark(b) == LET Bit(p) == RawBit(b, p) IN U16(Bit, 96, 16)
Usable(b) == Len(b) >= 16 /\ Intact(b) /\ StringNumber(b) \in 1..5

Layout == <<
    [ vel0 |-> F(21, 24, "m"), acc0 |-> F(45, 5, "m"), pos0 |-> F(50, 27, "m") ],
    [ svh |-> F(5, 3, "u"), iode |-> F(9, 7, "u"), vel1 |-> F(21, 24, "m"), acc1 |-> F(45, 5, "m"), pos1 |-> F(50, 27, "m") ],
    [ gamn |-> F(6, 11, "m"), vel2 |-> F(21, 24, "m"), acc2 |-> F(45, 5, "m"), pos2 |-> F(50, 27, "m") ],
    [ taun |-> F(5, 22, "m"), dtaun |-> F(27, 5, "m"), age |-> F(32, 5, "u"), sva |-> F(52, 4, "u"), slot |-> F(70, 5, "u") ],
    << >> >>

Broadcast(s, k, name) == LET Bit(p) == RawBit(s.last[k], p) IN Field(Bit, Layout[k][name])
Part(s, k, p, n) == LET Bit(q) == RawBit(s.last[k], q) IN U16(Bit, p, n)
(* Days since 1996-01-01 (in Moscow time, three hours ahead of UTC) and seconds of the day: the four-year    *)
(* interval comes with string 5, the day within it and the times of day with strings 4, 2 and 1.             *)
Day(s) == (Part(s, 5, 49, 5) - 1) * 1461 + Part(s, 4, 59, 11) - 1
At(s, sec) == <<Day(s) + sec \div 86400, sec % 86400, 0>>
Toe(s) == At(s, Part(s, 2, 9, 7) * 900)
Tof(s) == At(s, Part(s, 1, 9, 5) * 3600 + Part(s, 1, 14, 6) * 60 + Part(s, 1, 20, 1) * 30)
=============================================================================
