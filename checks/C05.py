"""C05: a closed log holds every record logged, and describes itself truthfully."""
import log_common as L


def run(ctx):
    rng = ctx.rng
    exe = L.exe()
    ctx.model_check("LogMC.tla", ctx.pick("LogMCq.cfg", "LogMC.cfg"))
    segs = []
    for i in range(ctx.pick(250, 3000)):
        ws, sec = [], L.base_sec(rng)
        for j in range(rng.choice([1, 1, 2, 3])):
            sec += rng.choice([1, 60, 86400, 31536000 * (rng.random() < .3) + 1])
            w = L.Writer(rng, "abc"[j], sec, rng.randrange(L.E9), nrec=rng.choice([0, 1, 5, 30, 60]),
                         dir=rng.choice(["d", "d", "e", "deep/er"]), ordered=rng.random() < .6,
                         amends="z" if rng.random() < .15 else None, close=rng.random() < .8)
            ops = w.ops
            if ops[-1].startswith("close"):
                for _ in range(rng.choice([0, 0, 1, 2])):     # disposing of a closed log does not change it
                    ops.append("dump " + w.name)
                    ops.append(rng.choice(["close %s %d 5" % (w.name, sec + 7), "destroy " + w.name]))
                    if ops[-1].startswith("destroy"):
                        ops.append("dump " + w.name)
                        break
            else:
                ops.append("destroy " + w.name)
            ops.append("dump " + w.name)
            if j == 0 and not any(o.startswith("destroy") for o in ops) and rng.random() < .5:
                # the same Logger goes on with another log, in the same or another directory
                v = L.Writer(rng, "r", sec + 5 * 31536000, 0, nrec=10, dir=rng.choice(["d", "f"]))
                ops += ["reopen %s r %s %d 0" % (w.name, v.dir, v.sec)] + v.ops[1:] + ["dump r", "dump " + w.name]
            ws.append(ops)
        z = ["open z d 5 0", "close z 9 0", "dump z"]
        segs.append(["new"] + z + L.interleave(rng, ws))
    for i in range(ctx.pick(3, 30)):      # long streams
        w = [L.Writer(rng, "ab"[j], L.base_sec(rng), 0, keys=rng.sample(L.KEYS, 3), nrec=1500) for j in (0, 1)]
        segs.append(["new"] + L.interleave(rng, [w[0].ops, w[1].ops]) + ["dump a", "dump b"])
    ctx.required_ops = ["open", "stream", "log", "close", "destroy", "dump"]
    ctx.assumptions = ["logs of one directory are opened at different seconds (the log's directory is named after it)",
                       "a Logger is closed before it opens another log"]
    ctx.conform("LogTrace.tla", "LogTrace.cfg", exe, segs, self_test=L.corrupt)
