----------------------------- MODULE BitsTrace -----------------------------
(* Recorded reading and writing of bit fields, and checksums.               *)
EXTENDS NavGlonass, Codes, TLC, Json, IOUtils, Trace
VARIABLE l
BufBit(b, p) == ByteBit(b[p \div 8 + 1], p % 8)
Limb(J(_)) == U16(J, 0, 16)
(* the value of a sequence of bits (J(0) the lowest of 64) as four limbs, highest first *)
Limbs(J(_)) == LET L3(k) == J(63 - k) L2(k) == J(47 - k) L1(k) == J(31 - k) L0(k) == J(15 - k)
               IN <<Limb(L3), Limb(L2), Limb(L1), Limb(L0)>>
Value(e) == LET J(j) == IF j < e.n THEN BufBit(e.b, e.p + e.n - 1 - j) ELSE IF e.s THEN BufBit(e.b, e.p) ELSE 0 IN Limbs(J)
DataBit(v, j) == (v[4 - j \div 16] \div 2^(j % 16)) % 2
Written(e) == \A q \in 0..8 * Len(e.b) - 1 :
    BufBit(e.after, q) = IF q >= e.p /\ q < e.p + e.n THEN DataBit(e.v, e.p + e.n - 1 - q) ELSE BufBit(e.b, q)
Magnitude(e) == LET B(p) == BufBit(e.b, p) IN SignMagnitude(B, e.p, e.n)
Wide(m) == <<IF m[1] < 0 THEN 65535 ELSE 0, IF m[1] < 0 THEN 65535 ELSE 0, m[1] % 65536, m[2]>>
Crc(e) == LET B(p) == BufBit(e.b, p) c == Checksum(B, 8 * Len(e.b)) IN <<0, 0, c \div 65536, c % 65536>>
(* the 85 bits as NavGlonass has them: little-endian words *)
Swapped(b) == [k \in 1..16 |-> LET i == ((k - 1) \div 4) * 4 + 4 - ((k - 1) % 4) IN IF i <= Len(b) THEN b[i] ELSE 0]
Step(e) ==
    TRUE = ( \/ e.op = "new"
             \/ e.op = "get" /\ e.v = Value(e)
             \/ e.op = "set" /\ Len(e.after) = Len(e.b) /\ Written(e)
             \/ e.op = "mag" /\ e.exact /\ e.v = Wide(Magnitude(e))
             \/ e.op = "crc" /\ e.v = Crc(e)
             \/ e.op = "ham" /\ e.ok = Intact(Swapped(e.b)) )
Init == l = 1
Next == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_l
=============================================================================
