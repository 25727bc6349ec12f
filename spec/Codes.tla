------------------------------- MODULE Codes -------------------------------
(* The CRC-24Q page checksum: a message of bits is a polynomial; its checksum *)
(* is the remainder of message * x^24 modulo the generator                    *)
(* x^24 + x^23 + x^18 + x^17 + x^14 + x^11 + x^10 + x^7 + x^6 + x^5 + x^4 +   *)
(* x^3 + x + 1. The remainders of the powers of x suffice: the code is linear.*)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Generator == 8801531                    \* 0x864CFB: without its leading term
XorBit(a, b, j) == ((a \div 2^j) + (b \div 2^j)) % 2
Xor(a, b) == LET T(j) == XorBit(a, b, j) * 2^j IN
    T(0) + T(1) + T(2) + T(3) + T(4) + T(5) + T(6) + T(7) + T(8) + T(9) + T(10) + T(11) + T(12) + T(13) + T(14) +
    T(15) + T(16) + T(17) + T(18) + T(19) + T(20) + T(21) + T(22) + T(23)
TimesX(v) == IF v >= 8388608 THEN Xor((v - 8388608) * 2, Generator) ELSE v * 2
Longest == 600
(* Power[i + 1] is the remainder of x^i *)
Power == FoldLeft(LAMBDA acc, k : Append(acc, TimesX(acc[Len(acc)])), <<1>>, [k \in 1..Longest |-> k])
(* checksum of n bits given by Bit(0), ..., Bit(n - 1), the first the highest power *)
Checksum(Bit(_), n) ==
    LET ones == {i \in 0..n - 1 : Bit(i) = 1}
        T(j) == (Cardinality({i \in ones : (Power[n - i + 24] \div 2^j) % 2 = 1}) % 2) * 2^j
    IN T(0) + T(1) + T(2) + T(3) + T(4) + T(5) + T(6) + T(7) + T(8) + T(9) + T(10) + T(11) + T(12) + T(13) + T(14) +
       T(15) + T(16) + T(17) + T(18) + T(19) + T(20) + T(21) + T(22) + T(23)
=============================================================================
