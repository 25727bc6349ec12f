------------------------------ MODULE Measure -------------------------------
(* Measurement models: what a receiver should have measured, given where it   *)
(* is, how it moves and how its clock runs, and how far that is from what it  *)
(* did measure. Geometry is exact: frames are rational motions, directions to *)
(* satellites are integer vectors g of integer length h. Results are in       *)
(* thousandths (mm, mm/s). Constants: the speed of light in mm/ns and the     *)
(* turning of the earth (Sagnac) in 1/10000 mm per (100 km)^2.                *)
EXTENDS Motion, TLC
Milli(a, b) == LET q == Abs(a) \div b r == Abs(a) % b IN (IF a < 0 THEN -1 ELSE 1) * (1000 * q + (1000 * r) \div b)
\* ns of a clock, in mm
Light(ns) == 299 * ns + (792 * ns) \div 1000 + (458 * (ns % 1000)) \div 1000000
\* sat and rec in units of 100 km
Sagnac(sat, rec) == ((sat[1] * rec[2] - sat[2] * rec[1]) * 24324) \div 10000
\* where the antenna is, relative to the reference point: earth <- region <- body <- antenna
Antenna(E, region, body, arm) ==
    LET a == TLCEval(Turned(body.r, arm)) b == TLCEval(Add(body.x, a)) c == TLCEval(Turned(region.r, b)) d == TLCEval(Add(region.x, c))
    IN TLCEval(Turned(E, d))
\* mm by which x (m) is ahead along g/h
Along(x, g, h) == Milli(Dot(g, x.t), h * x.d)
\* range to a satellite in direction g/h, less its range from the reference point, with the earth's turning
Nearer(x, g, h, sat, rec) == Sagnac(sat, rec) - Along(TLCEval(x), g, h)
\* sw in 1/8: how much the measurement is trusted
Eighths(k, x) == (x \div 8) * k + ((x % 8) * k) \div 8
\* pseudorange and range rate: computed less measured
PrangeOff(m, v) == Nearer(Antenna(m.E, v.region, v.body, v.arm), m.g, m.h, m.sat, m.rec) + m.atm + Light(v.clk[1] - m.sclk[1]) - 1000 * m.ahead
RateOff(m, v) ==
    LET u == Turned(m.E, Turned(v.region.r, Turned(v.body.r, v.vel))) IN
    Milli(Dot(m.g, m.vs), m.h) - Along(u, m.g, m.h) + Light(v.clk[2] - m.sclk[2]) - 1000 * m.rate
Plain(m, v) == <<Eighths(v.sw, PrangeOff(m, v)), Eighths(v.sw, RateOff(m, v)), 1000 - 125 * v.sw>>
\* weighted with the upper triangle U
Weighted(U, r) == <<U[1] * r[1] + U[2] * r[2] + U[3] * r[3], U[4] * r[2] + U[5] * r[3], U[6] * r[3]>>
\* change of the carrier phase between two epochs, in mm: computed less the change of range from the reference point
PhaseChange(m, v) ==
    (Nearer(Antenna(m.E, v.region, v.body2, v.arm), m.g2, m.h2, m.sat2, m.rec) + Light(v.clk2 - m.sclk2))
    - (Nearer(Antenna(m.E, v.region, v.body, v.arm), m.g, m.h, m.sat, m.rec) + Light(v.clk1 - m.sclk))
\* clock and switches from one epoch to the next: bias (units), rate (units/s), switch (1/8); dt in 1/8 s
Clock(m, v) == <<m.xi[1] * (16 * (v.b2 - v.b1) - (v.r1 + v.r2) * m.dt), m.xi[2] * (v.r2 - v.r1), m.xi[3] * (v.s2 - v.s1)>>
=============================================================================
