----------------------------- MODULE NavGalileo -----------------------------
(* The Galileo I/NAV message: a page pair of a receiver is 32 bytes, eight   *)
(* little-endian words; the first four hold the even page (114 bits used),   *)
(* the last four the odd page (106 bits used). A pair carries one word of    *)
(* 128 bits: 112 bits of the even page after its 2 leading bits, and 16 bits *)
(* of the odd page. LowBits is where in the odd page those 16 bits are taken *)
(* from: the ICD says 2.                                                     *)
EXTENDS NavBits, Assembly, Codes, TLC
CONSTANT LowBits
(* bit p of the eight words (0..127 the even page, 128..255 the odd one) *)
RawBit(b, p) == LET k == 31 - (p % 32) IN (b[(p \div 32) * 4 + (k \div 8) + 1] \div 2^(k % 8)) % 2
WordBit(b, p) == IF p < 112 THEN RawBit(b, p + 2) ELSE RawBit(b, 128 + LowBits + p - 112)

(* CRC-24Q over the 114 bits of the even page and the first 82 bits of the odd page; the checksum follows them *)
CodeBit(b, i) == IF i < 114 THEN RawBit(b, i) ELSE RawBit(b, 128 + i - 114)
Intact(b) ==
    LET Bit(i) == CodeBit(b, i)
        At(p) == RawBit(b, p)
    IN Checksum(Bit, 196) = U16(At, 210, 12) * 4096 + U16(At, 222, 12)

PageKind(b) == LET Bit(p) == WordBit(b, p) IN U16(Bit, 0, 6)
TimeFlag(b) == LET Bit(p) == WordBit(b, p) IN U16(Bit, 6, 2)
Svid(b) == LET Bit(p) == WordBit(b, p) IN U16(Bit, 16, 6)
(* not an alert, an even page followed by an odd one, intact, an ephemeris word, naming this satellite if any, telling the time if it is word 0 *)
Usable(b, sat) ==
    /\ Len(b) >= 32
    /\ RawBit(b, 1) = 0 /\ RawBit(b, 129) = 0
    /\ RawBit(b, 0) = 0 /\ RawBit(b, 128) = 1
    /\ Intact(b)
    /\ PageKind(b) \in 0..5
    /\ PageKind(b) = 4 => Svid(b) = sat
    /\ PageKind(b) = 0 => TimeFlag(b) = 2

Layout == 0 :> [ time_f |-> F(6, 2, "u"), tow |-> F(108, 20, "u") ]
       @@ 1 :> [ toes |-> F(16, 14, "u"), m0 |-> F(30, 32, "s"), ecc |-> F(62, 32, "u"), sqrta |-> F(94, 32, "u") ]
       @@ 2 :> [ omega0 |-> F(16, 32, "s"), i0 |-> F(48, 32, "s"), w |-> F(80, 32, "s"), idot |-> F(112, 14, "s") ]
       @@ 3 :> [ omegadot |-> F(16, 24, "s"), delta_n |-> F(40, 16, "s"), cuc |-> F(56, 16, "s"), cus |-> F(72, 16, "s"),
                 crc |-> F(88, 16, "s"), crs |-> F(104, 16, "s") ]
       @@ 4 :> [ cic |-> F(22, 16, "s"), cis |-> F(38, 16, "s"), tocs |-> F(54, 14, "u"), af0 |-> F(68, 31, "s"),
                 af1 |-> F(99, 21, "s"), af2 |-> F(120, 6, "s") ]
       @@ 5 :> [ bgd_e1_e5a |-> F(47, 10, "s"), bgd_e1_e5b |-> F(57, 10, "s"), e5b_hs |-> F(67, 2, "u"), e1b_hs |-> F(69, 2, "u"),
                 e5b_dvs |-> F(71, 1, "u"), e1b_dvs |-> F(72, 1, "u") ]
Iod(b) == LET Bit(p) == WordBit(b, p) IN U16(Bit, 6, 10)

Broadcast(s, k, name) == LET Bit(p) == WordBit(s.last[k], p) IN Field(Bit, Layout[k][name])
Num(v) == v[1] * 65536 + v[2]
SystemWeek(s) == LET Bit(p) == WordBit(s.last[0], p) IN U16(Bit, 96, 12)
(* The reference time is the one closest to the time of transmission; weeks of GPS, 1024 ahead of Galileo's.   *)
RefWeek(s) ==
    LET d == 60 * Num(Broadcast(s, 1, "toes")) - Num(Broadcast(s, 0, "tow"))
        w == SystemWeek(s) + 1024
    IN IF d > Week \div 2 THEN w - 1 ELSE IF d < -(Week \div 2) THEN w + 1 ELSE w
Instant(s, sow) == <<RefWeek(s) + sow \div Week, sow % Week, 0>>
=============================================================================
