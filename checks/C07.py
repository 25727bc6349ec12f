"""C07: an amending log overrides exactly the streams it rewrites."""
import log_common as L
from C06 import reads


def run(ctx):
    rng = ctx.rng
    exe = L.exe()
    ctx.model_check("LogMC.tla", ctx.pick("LogMCq.cfg", "LogMC.cfg"))
    segs = []
    for i in range(ctx.pick(250, 3000)):
        n = rng.choice([2, 2, 3, 4])
        pool = rng.sample(L.KEYS, 6)
        names = ["x", "w", "v", "a"][-n:]
        base = L.base_sec(rng) + 200000
        secs = rng.sample(range(base, base + 40), n)
        ops, prev, ws = [], None, []
        for j, name in enumerate(names):
            keys = rng.sample(pool, rng.randrange(0, 5))
            w = L.Writer(rng, name, secs[j], rng.randrange(L.E9), keys=keys, nrec=rng.choice([0, 3, 25]),
                         dir=rng.choice(["d", "e"]), amends=prev)
            ops += w.ops
            ws.append(w)
            prev = name
        keys, cnt = [], {}
        for w in ws:
            keys += [k for k in w.keys if k not in keys]
            cnt.update(w.cnt)
        cmds = reads(rng, keys)
        for k in keys:
            if rng.random() < .3:
                cmds.append("pull a %d %d" % (k, cnt[k]))
        if rng.random() < .3:       # the amended log can still be read by itself
            cmds.append("read %s -" % names[0])
        segs.append(["new"] + ops + cmds + ["dump " + x for x in names])
    ctx.required_ops = ["amends", "rbegin", "deliver", "rend", "dump"]
    ctx.assumptions = ["a log never amends itself through a cycle"]
    ctx.conform("LogTrace.tla", "LogTrace.cfg", exe, segs, self_test=L.corrupt)
