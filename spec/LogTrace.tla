------------------------------ MODULE LogTrace ------------------------------
(* Recorded runs of the logger and the log reader, checked against LogStore.  *)
EXTENDS TimeStamps, FiniteSets, TLC, Json, IOUtils, Trace
CONSTANT Half                       \* half the time quantum, in nanoseconds
LS == INSTANCE LogStore WITH TimeLe <- Le
VARIABLES logs, rp, view, maint, cur, stopped, l
vars == <<logs, rp, view, maint, cur, stopped, l>>

\* names of the streams: the well-known ones, and a distinct name for each other key
KnownNames == <<"IMU_SAMPLE", "GNSS_OBS", "GPS_EPH", "GAL_EPH", "GLO_EPH", "TRUTH_POSE", "GPS_OBS_RESIDUAL",
                "GAL_OBS_RESIDUAL", "GLO_OBS_RESIDUAL", "POINT_POS_RESIDUAL", "FIX_AND_HOLD_RESIDUAL", "ESTIMATE">>
NameOk(k, s) == k < Len(KnownNames) => s = KnownNames[k + 1]

\* the fields of the record schemas the driver uses: name:type[:rows[xcols]] (types as in the headers:
\* 0 double 1 float 2 int64 3 int32 4 int16 5 int8 6 uint64 7 uint32 8 uint16 9 uint8)
Schemas == <<
  <<"a:0">>,
  <<"a:1", "b:3", "c:2">>,
  <<"v:0:3x1", "flag:9">>,
  <<"m:0:3x4", "i:4", "u:8">>,
  <<"imu.t.sec:2", "imu.t.nsec:2", "imu.accel:0:3x1", "imu.gyro:0:3x1">>,
  <<"obs.t.sec:2", "obs.t.nsec:2", "obs.gnss_id:9", "obs.sat_num:9", "obs.freq:0", "obs.pseudorange:0",
    "obs.doppler:0", "obs.carrier_phase:0">>,
  <<"x:6", "y:7", "z:5">>,
  <<"when.sec:2", "when.nsec:2", "m:1:2x2">> >>
FieldsOf(s) == <<"t.sec:2", "t.nsec:2">> \o Schemas[s + 1]

\* the log's files say exactly what was logged
Range(s) == {s[i] : i \in 1..Len(s)}
DumpOk(e, g) ==
    /\ e.start = g.start
    /\ IF Len(g.end) = 2 THEN Le(g.end[1], e.end) /\ Le(e.end, g.end[2]) ELSE e.end = g.end
    /\ e.amends = g.amends
    /\ e.id = e.dirid
    /\ e.keys = g.keys
    /\ Len(e.names) = Len(e.keys) /\ Cardinality(Range(e.names)) = Len(e.names)
    /\ Range(e.files) = {"manifest.yml"} \cup {e.names[i] \o ".log" : i \in 1..Len(e.names)}
                                         \cup {e.names[i] \o ".yml" : i \in 1..Len(e.names)}
    /\ Len(e.streams) = Len(g.keys)
    /\ \A i \in 1..Len(g.keys) :
         LET k == g.keys[i]
             s == e.streams[i]
         IN /\ s.key = k /\ s.ks = e.names[i] /\ NameOk(k, e.names[i]) /\ s.id = e.id
            /\ s.fields = FieldsOf(g.schema[k])
            /\ s.rest = 0 /\ s.recs = g.data[k] /\ s.num = Len(g.data[k])

\* periodic maintenance: callback i is next due at maint[i].next; "owed" when the record about to be
\* delivered is at or past that time (within the clock quantum either way counts as reached)
Reached(t, due) == ~Lt(Add(t, Ns(Half + 2)), due)
Passed(t, due) == Lt(Add(due, Ns(Half + 2)), t)
\* the stamp of the record about to be delivered
NextT == LET k == CHOOSE k \in LS!Deliverable(rp) : TRUE IN LS!Head1(rp, k).t

IdleRp == [data |-> <<>>, pos |-> <<>>]
Writing == cur = LS!NoLog
ReadVars == <<rp, view, maint, cur, stopped>>

Step(e) ==
    \/ e.op = "new" /\ logs' = <<>> /\ rp' = IdleRp /\ view' = <<>> /\ maint' = <<>> /\ cur' = LS!NoLog /\ stopped' = FALSE
    \/ e.op = "open" /\ Writing /\ logs' = LS!Upd(logs, e.log, LS!EmptyLog(e.t)) /\ UNCHANGED ReadVars
    \/ e.op = "stream" /\ Writing /\ logs' = [logs EXCEPT ![e.log] = LS!WithStream(@, e.key, e.schema)] /\ UNCHANGED ReadVars
    \/ e.op = "log" /\ Writing /\ logs' = [logs EXCEPT ![e.log] = LS!WithRecord(@, e.key, [t |-> e.t, p |-> e.p])]
       /\ UNCHANGED ReadVars
    \/ e.op = "amends" /\ Writing /\ logs' = [logs EXCEPT ![e.log] = LS!Amending(@, e.of)] /\ UNCHANGED ReadVars
    \/ e.op = "close" /\ Writing /\ logs' = [logs EXCEPT ![e.log] = LS!Closed(@, e.t)] /\ UNCHANGED ReadVars
       \* a log that was not closed ends when its writer goes away
    \/ e.op = "destroy" /\ Writing /\ logs' = [logs EXCEPT ![e.log] = LS!Closed(@, <<e.t0, e.t1>>)] /\ UNCHANGED ReadVars
    \/ e.op = "dump" /\ Writing /\ DumpOk(e, logs[e.log]) /\ UNCHANGED logs /\ UNCHANGED ReadVars
    \/ e.op = "pull" /\ Writing /\ e.recs = SubSeq(LS!View(logs, e.log).data[e.key], 1, Len(e.recs))
       /\ UNCHANGED logs /\ UNCHANGED ReadVars
    \/ e.op = "rbegin" /\ Writing
       /\ LET v == LS!View(logs, e.log) IN
          /\ e.start = v.start /\ e.end = v.end /\ e.path = e.log /\ e.amended = Tail(v.chain)
          /\ view' = v /\ rp' = LS!StartReplay(v, Range(e.subs))
          /\ maint' = [i \in 1..Len(e.periods) |-> [period |-> e.periods[i], next |-> v.start, due |-> FALSE]]
       /\ cur' = e.log /\ stopped' = FALSE /\ UNCHANGED logs
    \/ e.op = "maint" /\ ~Writing /\ ~stopped /\ LS!Pending(rp) /= {}
          \* never ahead of schedule, and told where the replay is
       /\ e.t = NextT /\ Reached(e.t, maint[e.i].next)
       /\ maint' = [maint EXCEPT ![e.i] = [@ EXCEPT !.next = Add(@, maint[e.i].period), !.due = TRUE]]
       /\ stopped' = e.fail /\ UNCHANGED <<logs, rp, view, cur>>
    \/ e.op = "deliver" /\ ~Writing /\ ~stopped /\ e.key \in LS!Deliverable(rp)
       /\ LET r == LS!Head1(rp, e.key)
              rp2 == LS!Advance(rp, e.key)
              more == e.key \in LS!Pending(rp2)
          IN /\ e.t = r.t /\ e.before = r.t /\ e.p = r.p /\ e.rkey = e.key
             /\ e.rnum = Len(rp.data[e.key])
             /\ e.last = ~more /\ (more => e.next = LS!Head1(rp2, e.key).t)
             /\ rp' = rp2
             \* every callback whose time has passed has been called before this record
             /\ \A i \in DOMAIN maint : Passed(r.t, maint[i].next) => maint[i].due
       /\ maint' = [i \in DOMAIN maint |-> [maint[i] EXCEPT !.due = FALSE]]
       /\ UNCHANGED <<logs, view, cur, stopped>>
    \/ e.op = "rend" /\ ~Writing /\ (stopped \/ LS!Finished(rp))
       /\ cur' = LS!NoLog /\ UNCHANGED <<logs, rp, view, maint, stopped>>
Init == l = 1 /\ logs = <<>> /\ rp = IdleRp /\ view = <<>> /\ maint = <<>> /\ cur = LS!NoLog /\ stopped = FALSE
Next == l <= Len(Log) /\ Step(Log[l]) /\ l' = l + 1
TraceSpec == Init /\ [][Next]_vars
=============================================================================
