----------------------------- MODULE MotionTrace ----------------------------
(* Recorded rotations and motions. Numbers are recorded in units of 1/D (D    *)
(* given with them) and "off" is the distance to whole units in nano-units    *)
(* of the quantity itself.                                                    *)
EXTENDS Motion, TLC, Json, IOUtils, Trace
VARIABLES l, rot, mot
Near == 100
Src(i) == IF i = 4 THEN mot[3].r ELSE rot[i]
\* got, in units of 1/D, is the vector t/d
Is(got, D, t, d) == D % d = 0 /\ got = Times(D \div d, t)
IsVec(got, D, x) == Is(got, D, x.t, x.d)
\* elements of a rotation, up to the common sign
Shows(r, e) == e.off <= Near /\ (Is(e.q, e.D, r.q, r.n) \/ Is(e.q, e.D, Neg(r.q), r.n))
ShowsMotion(a, e) ==
    /\ e.off <= Near /\ IsVec(e.t, e.Dt, a.x)
    /\ \E sg \in {1, -1} : /\ Is(e.q, e.D, Times(sg, a.r.q), a.r.n)
                           /\ Is(e.dual, 2 * e.D * e.Dt, Times(sg, Dual(a)), 2 * a.r.n * a.x.d)
SetR(k, r, e) == rot' = [rot EXCEPT ![k] = r] /\ Shows(r, e) /\ UNCHANGED mot
SetM(k, a, e) == mot' = [mot EXCEPT ![k] = a] /\ ShowsMotion(a, e) /\ UNCHANGED rot
Nothing == UNCHANGED <<rot, mot>>
Pairs(e) == [i \in 1..Len(e.vs) |-> <<e.vs[i], e.outs[i]>>]
Step(e) ==
    CASE e.op = "new" -> rot' = [i \in 1..3 |-> One] /\ mot' = [i \in 1..3 |-> None]
      [] e.op = "rset" -> SetR(e.k, Rot(e.set, e.n), e)
      [] e.op = "raxis" -> SetR(e.k, About(e.axis, e.m, e.a, e.b, e.h), e)
      [] e.op = "reuler" -> SetR(e.k, Euler(e.roll, e.pitch, e.yaw), e)
      [] e.op = "rtwo" -> SetR(e.k, Between(e.u, e.un, e.v, e.vn, e.s), e)
      \* opposite directions: half a turn, one takes the other's place; the register goes back to no rotation
      [] e.op = "rflip" -> /\ TRUE = (e.w <= Near /\ e.off <= Near /\ e.len <= Near /\ Is(e.image, e.D, Neg(e.u), e.un))
                           /\ rot' = [rot EXCEPT ![e.k] = One] /\ UNCHANGED mot
      [] e.op = "rmul" -> SetR(e.k, RMul(Src(e.i), Src(e.j)), e)
      [] e.op = "rmuleq" -> SetR(e.i, RMul(rot[e.i], Src(e.j)), e)
      [] e.op = "rinv" -> SetR(e.k, RInv(Src(e.i)), e)
      [] e.op = "rinvert" -> SetR(e.k, RInv(rot[e.k]), e)
      \* copied, taken apart and rebuilt, normalized: the same rotation
      [] e.op \in {"rcopy", "rlog", "reul"} -> SetR(e.k, Src(e.i), e)
      [] e.op = "rshow" -> TRUE = Shows(Src(e.i), e) /\ Nothing
      [] e.op = "ract" ->
            /\ TRUE = (e.off <= Near /\ \A i \in 1..Len(e.vs) :
                         IsVec(e.outs[i], e.D, Turned(IF e.dir = "a" THEN Src(e.i) ELSE RInv(Src(e.i)), Vec(e.vs[i], 1))))
            /\ Nothing
      \* the columns: how the elements change when the rotation is followed by a small one about each axis
      [] e.op = "rparam" ->
            /\ TRUE = (e.off <= Near /\ e.back <= Near /\ \A i \in 1..3 : \E u \in {[j \in 1..4 |-> IF j = i + 1 THEN 1 ELSE 0]} :
                         \/ Is(e.cols[i], e.D, Raw(Src(e.i).q, u), 2 * Src(e.i).n)
                         \/ Is(e.cols[i], e.D, Neg(Raw(Src(e.i).q, u)), 2 * Src(e.i).n))
            /\ Nothing
      \* derivative of the exponential: along the axis, and across it; undone by the derivative of the logarithm
      [] e.op = "rjac" ->
            /\ TRUE = (e.off <= Near /\ e.back <= 100 * Near /\ IsVec(e.along, e.D, Vec(e.axis, e.m))
                         /\ IsVec(e.across, e.D, Derived(e.axis, e.m, e.a, e.b, e.h, e.u, e.ud, e.side)))
            /\ Nothing
      [] e.op = "mset" -> SetM(e.k, Motion(Rot(e.set, e.n), e.tt, e.td), e)
      [] e.op = "mexp" -> SetM(e.k, Screw(e.axis, e.m, e.a, e.b, e.h, e.c, e.u, e.ud), e)
      [] e.op = "mmul" -> SetM(e.k, MMul(mot[e.i], mot[e.j]), e)
      [] e.op = "minv" -> SetM(e.k, MInv(mot[e.i]), e)
      [] e.op \in {"mcopy", "mlog"} -> SetM(e.k, mot[e.i], e)
      [] e.op = "mshow" -> TRUE = ShowsMotion(mot[e.i], e) /\ Nothing
      [] e.op = "mact" ->
            /\ TRUE = (e.off <= Near /\ \A i \in 1..Len(e.vs) : \E p \in {Vec(e.vs[i], e.vd)} :
                         IsVec(e.outs[i], e.D, IF e.dir = "a" THEN Active(mot[e.i], p) ELSE Passive(mot[e.i], p)))
            /\ Nothing
      [] e.op = "mad" ->
            /\ TRUE = (e.off <= Near /\ \E y \in {Adjoint(mot[e.i], e.w, e.v)} : IsVec(e.outs[1], e.D, y[1]) /\ IsVec(e.outs[2], e.D, y[2]))
            /\ Nothing
      \* log(exp(w, v)) - (w, v), relative to the angle, and the Jacobians against differences of the maps themselves
      [] e.op = "lg" -> TRUE = (e.err <= 1000) /\ Nothing
      [] e.op = "mjac" -> TRUE = (\A i \in 1..Len(e.errs) : e.errs[i] <= 5) /\ Nothing
      \* a motion after its own inverse is the identity: no logarithm, and small motions pass through unchanged
      [] e.op = "home" -> TRUE = (e.log <= 1000 /\ e.jac <= 1000) /\ Nothing
      [] OTHER -> FALSE
Init == l = 1 /\ rot = <<>> /\ mot = <<>>
Next == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_<<l, rot, mot>>
=============================================================================
