"""C22: controllers stay within their limits and do not wind up; waypoints are followed in order."""
import vlib


def run(ctx):
    ctx.assumptions = ["max_speed of at least 1",
                       "distance exactly equal to the threshold may count either way; no direction is required while standing exactly on the target"]
    rng = ctx.rng
    ctx.model_check("PidMC.tla", ctx.pick("PidMC.cfg", "PidMC6.cfg"))
    exe = vlib.build("pid", "pid.cpp", ["sim/controllers/pid.cxx", "sim/dynamics/car.cxx", "sim/dynamics/dynamics.cxx"],
                     flags=["-ftrivial-auto-var-init=pattern"])
    gen, _ = vlib.tlc_generate("PidGen.tla", ctx.pick("PidGen.cfg", "PidGen4.cfg"))
    gen = sorted(set(map(tuple, gen)))
    ctx.notes["behaviours_generated"] = len(gen)
    gen = rng.sample(gen, min(len(gen), ctx.pick(2000, 20000)))

    def gains(kd=None):
        return "new %d %d %d %d %d" % (rng.choice([0, 1, 4, 16, 40]), rng.choice([0, 1, 8, 16, 40]),
                                       rng.choice([0, 0, 1, 8, 24]) if kd is None else kd,
                                       rng.choice([1, 2, 4, 8]) * 32768 if rng.random() < .9 else 2 ** 30,
                                       rng.choice([1, 2, 3, 8, 16, 24]))
    segs = []
    for b in gen:
        big, small = rng.choice([256, 512, 1500, 3000]), rng.choice([8, 32, 64])
        err = {"big": big, "small": small, "zero": 0, "-small": -small, "-big": -big}
        seg = [gains(rng.choice([0, 0, None]))]
        for k in range(1, len(b), 3):
            e, on, t = b[k:k + 3]
            x = rng.choice([0, 0, rng.randint(-500, 500)])
            seg.append("run %d %d %d %d" % (rng.choice([1, 2]) if t == "short" else rng.choice([8, 16]), x, x + err[e], on == "on"))
        segs.append(seg)
    for _ in range(ctx.pick(300, 3000)):
        seg = [gains()]
        x, bias = 0, rng.choice([0, 300, -300, 1500])
        for _ in range(rng.choice([5, 20, 40])):
            x += rng.randint(-200, 200)
            xc = x + bias + rng.randint(-150, 150)
            if rng.random() < .08:
                bias = -bias
            dt = rng.choice([0, 1, 1, 2, 4, 16])
            if rng.random() < .3:
                seg.append("runx %d %d %d %d %d" % (dt, x, xc, rng.random() < .8, rng.randint(-3000, 3000)))
            else:
                seg.append("run %d %d %d %d" % (dt, x, xc, rng.random() < .8))
        segs.append(seg)
    for _ in range(ctx.pick(200, 2000)):
        n = rng.choice([1, 2, 3, 5])
        way = [[rng.randint(-40, 40), rng.randint(-40, 40), rng.choice([0, 0, rng.randint(-8, 8)])] for _ in range(n)]
        if rng.random() < .2 and n > 1:
            way[1] = list(way[0])
        seg = [gains(), "follow %d %d %d %s" % (rng.choice([2, 4, 9]), rng.choice([1, 10]), rng.choice([1, 3]),
                                                " ".join(str(x) for w in way for x in w))]
        i = 0
        for _ in range(rng.choice([4, 12, 25])):
            if rng.random() < .6:
                i += rng.random() < .8
                t = way[i % n]
            else:
                t = rng.choice(way)
            s = rng.choice([0, 1, 3, 12])
            seg.append("at %d %d %d %d" % (t[0] + rng.randint(-s, s), t[1] + rng.randint(-s, s), t[2], rng.randrange(4)))
        segs.append(seg)

    def corrupt(t, r):
        es = [e for e in t if e["op"] in ("run", "runx", "at")]
        if not es:
            return None
        e = r.choice(es)
        if e["op"] == "at":
            e["within"] = False
        elif r.random() < .5:
            e["u"] += 5000
        else:
            e["probe"] += 5000
        return t
    ctx.required_ops = ["run", "runx", "follow", "at"]
    ctx.conform("PidTrace.tla", "Trace.cfg", exe, segs, self_test=corrupt)
