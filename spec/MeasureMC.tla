----------------------------- MODULE MeasureMC ------------------------------
(* The specified measurements obey the laws of geometry: they do not depend   *)
(* on how a displacement is divided among frames, body and lever arm, and a   *)
(* step towards the satellite shortens the range by its length.               *)
EXTENDS Measure, TLC
CONSTANTS Depth
VARIABLES body, region, arm, n
Quats == {<<<<1, 0, 0, 0>>, 1>>, <<<<1, 1, 1, 1>>, 2>>, <<<<0, 0, 1, 0>>, 1>>, <<<<2, 2, 1, 0>>, 3>>, <<<<1, 0, 2, -2>>, 3>>}
Shifts == {<<0, 0, 0>>, <<3, -2, 6>>, <<-9, 0, 4>>}
Dirs == {<<<<1, 0, 0>>, 1>>, <<<<1, 2, 2>>, 3>>, <<<<2, -6, 3>>, 7>>}
Frames == {Motion(Rot(q[1], q[2]), s, 1) : q \in Quats, s \in Shifts}
E0 == Rot(<<1, -1, 1, 1>>, 2)
Init == body = None /\ region = None /\ arm = Vec(<<0, 0, 0>>, 1) /\ n = 0
Next == /\ n < Depth /\ n' = n + 1
        /\ \/ \E f \in Frames : body' = f /\ UNCHANGED <<region, arm>>
           \/ \E f \in Frames : region' = f /\ UNCHANGED <<body, arm>>
           \/ \E s \in Shifts : arm' = Vec(s, 2) /\ UNCHANGED <<region, body>>
Spec == Init /\ [][Next]_<<body, region, arm, n>>
Here == Antenna(E0, region, body, arm)
M(d) == [E |-> E0, g |-> d[1], h |-> d[2], sat |-> <<200, 30, 10>>, rec |-> <<60, -20, 5>>, atm |-> 5000, ahead |-> 3, sclk |-> <<0, 0>>, vs |-> <<3000, -500, 200>>, rate |-> 700]
V(b, r, a) == [region |-> r, body |-> b, arm |-> a, clk |-> <<20, 3>>, vel |-> Vec(<<3, 1, -2>>, 1), sw |-> 8]
\* only the whole displacement counts
Divided ==
    /\ Here = Antenna(E0, None, MMul(region, body), arm)
    /\ Here = Antenna(E0, region, Motion(body.r, Active(body, arm).t, Active(body, arm).d), Vec(<<0, 0, 0>>, 1))
    /\ \A d \in Dirs : PrangeOff(M(d), V(body, region, arm)) = PrangeOff(M(d), V(MMul(region, body), None, arm))
\* one metre towards the satellite
Shortens == \A d \in Dirs :
    LET step == TLCEval(Turned(RInv(RMul(E0, region.r)), Vec(d[1], d[2])))
        moved == TLCEval([r |-> body.r, x |-> Add(body.x, step)])
        by == PrangeOff(M(d), V(body, region, arm)) - PrangeOff(M(d), V(moved, region, arm))
    IN by \in 999..1001
\* turning the body does not matter where the antenna sits at its origin
Turns == \A q \in Quats : Antenna(E0, region, [r |-> Rot(q[1], q[2]), x |-> body.x], Vec(<<0, 0, 0>>, 1)) = Antenna(E0, region, body, Vec(<<0, 0, 0>>, 1))
\* exchanging the epochs turns the sign; no displacement and equal clocks change nothing
Epochs == \A d \in Dirs : \A d2 \in Dirs :
    LET m == [E |-> E0, g |-> d[1], h |-> d[2], g2 |-> d2[1], h2 |-> d2[2], sat |-> <<200, 30, 10>>, sat2 |-> <<190, 50, 10>>, rec |-> <<60, -20, 5>>, sclk |-> 3, sclk2 |-> 5]
        s == [m EXCEPT !.g = d2[1], !.h = d2[2], !.g2 = d[1], !.h2 = d[2], !.sat = m.sat2, !.sat2 = m.sat, !.sclk = 5, !.sclk2 = 3]
        v == [region |-> region, body |-> body, body2 |-> None, arm |-> arm, clk1 |-> 7, clk2 |-> 11]
        w == [v EXCEPT !.body = None, !.body2 = body, !.clk1 = 11, !.clk2 = 7]
    IN PhaseChange(m, v) = -PhaseChange(s, w)
ASSUME Light(1000) \in 299792..299793 /\ Light(-1000) \in {-299793, -299792, -299794} /\ Light(0) = 0
ASSUME \* east of the satellite the earth turns away: the signal takes longer
    Sagnac(<<0, 200, 0>>, <<-60, 0, 0>>) > 0 /\ Sagnac(<<0, 200, 0>>, <<60, 0, 0>>) < 0 /\ Sagnac(<<100, 100, 50>>, <<30, 30, -3>>) = 0
=============================================================================
