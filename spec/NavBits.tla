------------------------------ MODULE NavBits ------------------------------
(* Bit fields of navigation messages. A message is given by an operator     *)
(* Bit(p) (the p-th bit, 0 or 1, in transmission order). Field values are   *)
(* pairs <<hi, lo>> standing for hi * 65536 + lo with lo in 0..65535, since *)
(* TLC's integers are too narrow for unsigned 32-bit fields.                *)
EXTENDS Integers, Sequences, FiniteSets

(* n <= 16 bits from position p, as a number *)
U16(Bit(_), p, n) ==
    LET T(k) == IF k < n THEN Bit(p + n - 1 - k) * 2^k ELSE 0
    IN T(0) + T(1) + T(2) + T(3) + T(4) + T(5) + T(6) + T(7) + T(8) + T(9) + T(10) + T(11) + T(12) + T(13) + T(14) + T(15)

(* n <= 32 bits, unsigned *)
Unsigned(Bit(_), p, n) ==
    IF n <= 16 THEN <<0, U16(Bit, p, n)>> ELSE <<U16(Bit, p, n - 16), U16(Bit, p + n - 16, 16)>>

(* n <= 32 bits, two's complement *)
Signed(Bit(_), p, n) ==
    IF Bit(p) = 0 THEN Unsigned(Bit, p, n)
    ELSE IF n <= 16 THEN <<-1, U16(Bit, p, n) + 65536 - 2^n>>
    ELSE <<U16(Bit, p, n - 16) - 2^(n - 16), U16(Bit, p + n - 16, 16)>>

(* a sign bit and n - 1 bits of magnitude *)
SignMagnitude(Bit(_), p, n) ==
    LET m == Unsigned(Bit, p + 1, n - 1)
    IN IF Bit(p) = 0 \/ m = <<0, 0>> THEN m
       ELSE IF m[2] = 0 THEN <<-m[1], 0>> ELSE <<-m[1] - 1, 65536 - m[2]>>

Field(Bit(_), f) == CASE f.t = "u" -> Unsigned(Bit, f.p, f.n)
                      [] f.t = "s" -> Signed(Bit, f.p, f.n)
                      [] f.t = "m" -> SignMagnitude(Bit, f.p, f.n)
F(p, n, t) == [p |-> p, n |-> n, t |-> t]

(* bit k (0 the most significant) of byte b *)
ByteBit(b, k) == (b \div 2^(7 - k)) % 2

Week == 604800
=============================================================================
