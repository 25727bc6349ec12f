------------------------------- MODULE NavGps -------------------------------
(* The GPS legacy navigation message, as words of a receiver: 40 bytes, ten  *)
(* little-endian words of 30 bits, of which the upper 24 are data. The most  *)
(* recent subframe of each kind is kept; an ephemeris is ready when all      *)
(* three kinds have arrived since the last one, with one issue of data.      *)
EXTENDS NavBits, Assembly
(* bit p (0..239) of the data of message b *)
GpsBit(b, p) ==
    LET k == 29 - (p % 24)                    \* bit of the word, from the least significant
    IN (b[(p \div 24) * 4 + (k \div 8) + 1] \div 2^(k % 8)) % 2
Kind(b) == LET Bit(p) == GpsBit(b, p) IN U16(Bit, 43, 3)
Preamble(b) == LET Bit(p) == GpsBit(b, p) IN U16(Bit, 0, 8) = 139
Usable(b) == Len(b) >= 40 /\ Preamble(b) /\ Kind(b) \in 1..3
Issue(b) == LET Bit(p) == GpsBit(b, p)
            IN CASE Kind(b) = 1 -> U16(Bit, 168, 8) [] Kind(b) = 2 -> U16(Bit, 48, 8) [] Kind(b) = 3 -> U16(Bit, 216, 8)

(* subframe kind -> fields *)
Layout == <<
    [ week_mod |-> F(48, 10, "u"), code_on_L2 |-> F(58, 2, "u"), ura |-> F(60, 4, "u"), health |-> F(64, 6, "u"),
      L2_P_data_flag |-> F(72, 1, "u"), tgd |-> F(160, 8, "s"), iode |-> F(168, 8, "u"), tocs |-> F(176, 16, "u"),
      af2 |-> F(192, 8, "s"), af1 |-> F(200, 16, "s"), af0 |-> F(216, 22, "s"), tow |-> F(24, 17, "u") ],
    [ crs |-> F(56, 16, "s"), delta_n |-> F(72, 16, "s"), m0 |-> F(88, 32, "s"), cuc |-> F(120, 16, "s"),
      ecc |-> F(136, 32, "u"), cus |-> F(168, 16, "s"), sqrta |-> F(184, 32, "u"), toes |-> F(216, 16, "u"),
      fit |-> F(232, 1, "u") ],
    [ cic |-> F(48, 16, "s"), omega0 |-> F(64, 32, "s"), cis |-> F(96, 16, "s"), i0 |-> F(112, 32, "s"),
      crc |-> F(144, 16, "s"), w |-> F(160, 32, "s"), omegadot |-> F(192, 24, "s"), idot |-> F(224, 14, "s") ] >>

Broadcast(last, k, name) == LET Bit(p) == GpsBit(last[k], p) IN Field(Bit, Layout[k][name])
Num(v) == v[1] * 65536 + v[2]
(* 10 bits of clock issue: two in word 3, eight in word 8 of subframe 1 *)
Iodc(b) == LET Bit(p) == GpsBit(b, p) IN U16(Bit, 70, 2) * 256 + U16(Bit, 168, 8)
(* the reference times are those closest to the time of transmission *)
WeekOf(last, sow) ==
    LET tow == Num(Broadcast(last, 1, "tow")) * 6
        w == 2048 + Num(Broadcast(last, 1, "week_mod"))
    IN IF sow - tow > Week \div 2 THEN w - 1 ELSE IF sow - tow < -(Week \div 2) THEN w + 1 ELSE w
Instant(last, sow) == <<WeekOf(last, sow) + sow \div Week, sow % Week, 0>>
=============================================================================
