---------------------------- MODULE KalmanTrace ----------------------------
(* Recorded propagations and updates of generated filter code.                *)
EXTENDS Kalman, Json, IOUtils, Trace
VARIABLES l, p
Flat(m) == FoldLeft(LAMBDA acc, r : acc \o r, <<>>, m)
Initial(e) ==
    /\ e.exact
    /\ e.cov = Flat(Diag(e.qx, 0)) /\ e.dense = e.cov
    /\ e.dqx = Flat(Diag(e.qx, 0)) /\ e.dqu = Flat(Diag(e.qu, 0))
Predicted(e) ==
    \E A \in {Unflat(e.A, e.n, e.n, p)} : \E P \in {Unflat(e.P, e.n, e.n, p)} : \E B \in {Unflat(e.B, e.n, e.nu, p)} :
    \E A8 \in {Transition8(A, e.h, e.n, p)} : \E B8 \in {Input8(A, B, e.h, e.n, e.nu, p)} :
       /\ e.ok /\ e.exact /\ e.dense /\ e.minus /\ e.jacs /\ e.kept
       /\ e.cov = Flat(Propagated64(P, A8, B8, e.qu, e.qx, p))
       /\ e.dx = RedSeq([k \in 1..e.n |-> e.f[k] * e.h], p)
       /\ e.dt_us = e.h * 500000
       /\ e.uout = RedSeq(e.u, p)
Updated(e) ==
    /\ e.dense /\ e.time
    /\ IF e.m = 0 THEN e.outcome = 3 /\ e.untouched
       ELSE \E P \in {Unflat(e.P, e.n, e.n, p)} : \E H \in {Unflat(e.H, e.m, e.n, p)} : \E G \in {Unflat(e.G, e.m, e.n, p)} :
            \E T \in {PHT(P, H, p)} : \E S \in {Innovation(H, T, e.r, p)} :
              /\ e.jacs
              \* what came with the workload is what it claims to be
              /\ Assert(Solves(S, RedSeq(e.g, p), e.D, e.res, p) /\ SolvesAll(S, G, e.n, e.D, T, p) /\ Red(e.D, p) # 0, <<"workload", e>>)
              /\ IF Gated(e.prob, e.dof, e.res, e.g, e.D) THEN e.outcome = 2 /\ e.untouched
                 ELSE /\ e.outcome = 1 /\ e.res_ok
                      /\ IF e.disabled THEN e.untouched
                         ELSE /\ e.exact
                              /\ e.dx = DeltaD(T, RedSeq(e.g, p), p)
                              /\ e.cov = Flat(UpdatedD(P, T, G, e.n, e.D, p))
Step(e) == CASE e.op = "new" -> p' = e.prime
             [] e.op = "initial" -> TRUE = Initial(e) /\ p' = p
             [] e.op = "predict" -> TRUE = Predicted(e) /\ p' = p
             [] e.op = "update" -> TRUE = Updated(e) /\ p' = p
             [] OTHER -> FALSE /\ p' = p
Init == l = 1 /\ p = 0
Next == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_<<l, p>>
=============================================================================
