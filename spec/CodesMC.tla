------------------------------ MODULE CodesMC ------------------------------
(* What the two codes detect, over all damages of one or two bits (of a      *)
(* linear code, the damage decides) and, for the page checksum, all bursts    *)
(* of at most 24 bits. A state is one damage.                                 *)
EXTENDS NavGlonass, Codes, TLC
VARIABLES i, j
Init == i \in 1..219 /\ j \in i..219
Next == UNCHANGED <<i, j>>
Spec == Init /\ [][Next]_<<i, j>>
(* the page checksum: 220 bits; bits i and j (i = j: one bit) damaged *)
PageNotices == IF i = j THEN Power[i + 1] /= 0 ELSE Power[i + 1] /= Power[j + 1]
(* a burst from i down to j, with any bits between, is x^j times a polynomial of degree less than 24 with a lowest term: *)
(* not divisible by the generator because the generator has a constant term and x is invertible                          *)
Invertible == Generator % 2 = 1 /\ TimesX(Power[i + 1]) /= 0
(* the string code, on the zero word *)
Word(a, b) == [k \in 1..16 |-> LET w == (k - 1) \div 4 m == 3 - ((k - 1) % 4) first == w * 32 + m * 8
                   Bit(p) == IF p >= 0 /\ p < 85 /\ (p = 85 - a \/ p = 85 - b) THEN 1 ELSE 0
               IN U16(Bit, first, 8)]
StringNotices == (i <= 85 /\ j <= 85) =>
    (Intact(Word(i, j)) <=> i = j /\ i \in 1..7)        \* nothing but one single check bit goes unnoticed
=============================================================================
