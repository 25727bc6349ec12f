----------------------------- MODULE SensorTrace ----------------------------
(* Recorded queries of the simulated sensors, and steps of the simulator.     *)
EXTENDS Sensor, FiniteSets, TLC, Json, IOUtils, Trace
VARIABLES l, cfg, pi, pg, queue, amb, ready
vars == <<cfg, pi, pg, queue, amb, ready>>
Size(x) == IF x < 0 THEN -x ELSE x
\* steps of the simulator are added up in nanoseconds, so the boundary is open by a microsecond there
Slack == IF cfg.sim THEN 1 ELSE 0
MayGive(got, prev, t, period) == IF got THEN t - prev >= period - Slack ELSE t - prev < period + Slack
Ids == {<<r[1], r[2]>> : r \in cfg.recs}
\* one observation per satellite, its own
Obs(t, obs) ==
    /\ Len(obs) = Cardinality(Ids) /\ {obs[i].id : i \in 1..Len(obs)} = Ids
    /\ \A i \in 1..Len(obs) : obs[i].t = t /\ obs[i].freq = 0
    /\ ~cfg.noisy => \A i \in 1..Len(obs) :
          \* a whole number of cycles between phase and range, always the same
          /\ obs[i].frac <= 1
          /\ obs[i].id \in DOMAIN amb => obs[i].amb = amb[obs[i].id]
Kept(obs) == IF cfg.noisy THEN amb ELSE [x \in Ids |-> obs[CHOOSE i \in 1..Len(obs) : obs[i].id = x].amb]
Whose(obs) == cfg.noisy \/ \A i \in 1..Len(obs) : obs[i].id \in {obs[i].whose[j] : j \in 1..Len(obs[i].whose)}
Nothing == UNCHANGED vars
Step(e) ==
    CASE e.op = "new" ->
            /\ cfg' = [sim |-> e.sim, noisy |-> e.noisy, pi |-> e.pi, pg |-> e.pg, recs |-> {e.recs[i] : i \in 1..Len(e.recs)}]
            /\ pi' = 0 /\ pg' = 0 /\ amb' = <<>> /\ ready' = FALSE
            /\ queue' = [c \in 0..2 |-> LET Is(r) == r[1] = c mine == SelectSeq(e.recs, Is)
                                        IN [i \in 1..Len(mine) |-> [t |-> mine[i][4], sat |-> mine[i][2], id |-> mine[i][3]]]]
      [] e.op = "started" -> ready' = TRUE /\ UNCHANGED <<cfg, pi, pg, queue, amb>>
      [] e.op = "ask" -> Nothing
      [] e.op = "imu" ->
            /\ TRUE = MayGive(e.got, pi, e.t, cfg.pi)
            /\ pi' = IF e.got THEN e.t ELSE pi
            /\ TRUE = (e.got => e.stamp = e.t /\ (~cfg.noisy =>
                  /\ \A i \in 1..3 : Size(e.accel[i] - Force(e.acc, e.rate, e.vel, e.axis, e.turn)[i]) <= 20
                  /\ \A i \in 1..3 : Size(e.gyro[i] - 1000 * e.rate[i]) <= 2))
            /\ UNCHANGED <<cfg, pg, queue, amb, ready>>
      [] e.op = "gnss" ->
            /\ TRUE = MayGive(e.got, pg, e.t, cfg.pg)
            /\ pg' = IF e.got THEN e.t ELSE pg
            /\ TRUE = (e.got => Obs(e.t, e.obs) /\ Whose(e.obs))
            /\ amb' = IF e.got THEN Kept(e.obs) ELSE amb
            /\ UNCHANGED <<cfg, pi, queue, ready>>
      [] e.op = "eph" ->
            /\ TRUE = (e.got = Ready(queue[e.con], e.t))
            /\ TRUE = (e.got => e.id = queue[e.con][1].id /\ e.sat = queue[e.con][1].sat)
            /\ queue' = [queue EXCEPT ![e.con] = Rest(@, e.t)] /\ UNCHANGED <<cfg, pi, pg, amb, ready>>
      [] e.op = "step" ->
            LET gi == Len(e.imu) = 1 gg == e.ngnss = 1 IN
            /\ TRUE = (Len(e.imu) <= 1 /\ e.ngnss <= 1 /\ Size(e.t - e.from - e.dt) <= 1)
            /\ TRUE = (MayGive(gi, pi, e.t, cfg.pi) /\ MayGive(gg, pg, e.t, cfg.pg))
            /\ TRUE = ((gi => e.imu[1] = e.t) /\ (gg => Obs(e.t, e.obs)))
            /\ pi' = (IF gi THEN e.t ELSE pi) /\ pg' = IF gg THEN e.t ELSE pg
            /\ amb' = IF gg THEN Kept(e.obs) ELSE amb
            /\ TRUE = \A c \in 0..2 : IF Ready(queue[c], e.t) THEN e.eph[c + 1] = <<<<queue[c][1].sat, queue[c][1].id>>>> ELSE e.eph[c + 1] = <<>>
            /\ queue' = [c \in 0..2 |-> Rest(queue[c], e.t)] /\ UNCHANGED <<cfg, ready>>
      \* there must be a satellite to simulate
      [] e.op = "crash" -> Nothing /\ TRUE = (~ready /\ cfg.recs = {})
Init == l = 1 /\ cfg = [sim |-> FALSE, noisy |-> FALSE, pi |-> 1, pg |-> 1, recs |-> {}] /\ pi = 0 /\ pg = 0 /\ queue = <<>> /\ amb = <<>> /\ ready = FALSE
Next == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_<<l, vars>>
=============================================================================
