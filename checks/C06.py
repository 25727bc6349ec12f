"""C06: log replay delivers every subscribed record once, in time order."""
import log_common as L


def reads(rng, keys):
    ks = list(keys)
    out = []
    for _ in range(rng.choice([1, 2, 3])):
        sub = rng.sample(ks, rng.randrange(0, len(ks) + 1)) if ks and rng.random() < .7 else ks
        rng.shuffle(ks)
        out.append("read a " + (",".join(map(str, sub)) or "-"))
    return out


def run(ctx):
    rng = ctx.rng
    exe = L.exe()
    ctx.model_check("LogMC.tla", ctx.pick("LogMCq.cfg", "LogMC.cfg"))
    segs = L.generated(ctx.pick("LogGen3.cfg", "LogGen5.cfg"))
    ctx.notes["behaviours_generated_by_tlc"] = len(segs)
    for i in range(ctx.pick(150, 2500)):
        dt = None
        k = rng.random()
        if k < .3:
            dt = lambda r: r.choice([0, 0, 0, 1, 2])
        elif k < .5:
            dt = lambda r: r.choice([1, 49999, 50000, 50001, 100000, 10**7])
        w = L.Writer(rng, "a", L.base_sec(rng), rng.randrange(L.E9), nrec=rng.choice([1, 10, 60, 150]),
                     ordered=rng.random() < .75, dt=dt)
        cmds = reads(rng, w.keys)
        for key in w.keys:
            if rng.random() < .4:
                cmds.append("pull a %d %d" % (key, rng.randrange(0, w.cnt[key] + 1)))
        segs.append(["new"] + w.ops + cmds + ["dump a"])
    for i in range(ctx.pick(2, 20)):
        w = L.Writer(rng, "a", L.base_sec(rng), 0, keys=rng.sample(L.KEYS, 8), nrec=2000)
        segs.append(["new"] + w.ops + reads(rng, w.keys))
    ctx.required_ops = ["rbegin", "deliver", "rend", "pull"]
    ctx.assumptions = ["subscribers read the record they are called for",
                       "no record carries the sentinel stamp MAX_TIME"]
    ctx.conform("LogTrace.tla", "LogTrace.cfg", exe, segs, self_test=L.corrupt)
