"""C08: periodic maintenance runs on schedule during replay and can stop it."""
import log_common as L
E9 = L.E9


def run(ctx):
    rng = ctx.rng
    exe = L.exe()
    ctx.model_check("LogMC.tla", "LogMC.cfg")
    segs = L.generated(ctx.pick("LogGen3.cfg", "LogGen5.cfg"))
    ctx.notes["behaviours_generated_by_tlc"] = len(segs)
    for i in range(ctx.pick(250, 3000)):
        periods = [rng.choice([10**7, 10**6 * 5, 2 * 10**8, 10**9, 3 * 10**9 // 2, 123456789, 10**10])
                   for _ in range(rng.choice([1, 1, 2, 3]))]
        p = min(periods)
        sec, ns = L.base_sec(rng), rng.choice([0, rng.randrange(E9)])
        start = sec * E9 + ns
        style = rng.random()
        state = dict(t=start)

        def dt(r):
            # mostly denser than the smallest period; sometimes a gap over several periods
            for _ in range(50):
                if style > .75 and r.random() < .1:
                    d = r.randrange(p, 6 * p)
                else:
                    d = r.choice([0, r.randrange(p // 2), r.randrange(p), p // 4, p // 2, p - 1000])
                if r.random() < .15:   # exactly on schedule, or inside the clock quantum around it
                    k = (state["t"] - start) // p + 1
                    d = start + k * p + r.choice([0, -40000, 40000, -1000, 1000]) - state["t"]
                if d < 0:
                    continue
                t = state["t"] + d
                off = [min((t - start) % q, -(t - start) % q) for q in periods]
                if any(45000 < o < 55000 for o in off):   # too close to the edge of the quantum to call
                    continue
                break
            else:
                d = 0
            state["t"] += d
            return d
        w = L.Writer(rng, "a", sec, ns, keys=rng.sample(L.KEYS, rng.choice([1, 2, 3])),
                     nrec=rng.choice([5, 40, 80]), dt=dt)
        ks = ",".join(map(str, w.keys))
        cmds = []
        for _ in range(2):
            cmds.append("read a " + ks + "".join(" %d %d" % (q, rng.choice([0, 0, 0, 1, 2, 5, 20])) for q in periods))
        if len(w.keys) > 1:
            cmds.append("read a %d" % w.keys[0] + "".join(" %d 0" % q for q in periods))
        segs.append(["new"] + w.ops + cmds)
    # a log that starts before its amended log: the schedule starts at the earliest start
    for i in range(ctx.pick(20, 200)):
        b = L.base_sec(rng)
        x = L.Writer(rng, "x", b + rng.choice([-5, 5]), 0, keys=[0, 1], nrec=20, dt=lambda r: r.randrange(5 * 10**8))
        a = L.Writer(rng, "a", b, 0, keys=[1, 2], nrec=20, dt=lambda r: r.randrange(5 * 10**8), amends="x")
        segs.append(["new"] + x.ops + a.ops + ["read a 0,1,2 1000000000 0", "read a 0,1,2 1000000000 3 2000000000 0"])

    def corrupt(t, r):
        ms = [i for i, e in enumerate(t) if e["op"] == "maint"]
        if not ms:
            return None
        i = r.choice(ms)
        if r.random() < .5 and i + 1 < len(t) and t[i + 1]["op"] == "deliver" and not t[i]["fail"]:
            e = t[i]
            same = [j for j in ms if t[j]["i"] == e["i"] and t[j]["t"] == e["t"]]
            if len(same) > 1:
                return None
            t.insert(i, dict(e))            # called twice: ahead of schedule
            # only if the second call is not due yet
            return t if len(ms) < 3 and False else None
        e = t[i]
        e["t"] = e["t"][:2] + [e["t"][2] + 1, e["t"][3]]
        return t
    ctx.required_ops = ["maint", "deliver", "rend"]
    ctx.assumptions = ["stamps stay a few microseconds away from the edge of the clock quantum around a scheduled time",
                       "where records are spaced wider than the period, only that at least one call precedes each "
                       "overdue record and no call is early is required"]
    ctx.conform("LogTrace.tla", "LogTrace.cfg", exe, segs, self_test=corrupt)
