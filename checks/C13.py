"""C13: each satellite observation is used with its own satellite and constellation."""
import estimator_common as est
import vlib


def seg(rng, n):
    sats = [(c, s) for c in range(3) for s in rng.sample(range(1, 33), rng.choice([1, 3, 8]))]
    if rng.random() < .5:                  # the same satellite numbers in several constellations
        nums = rng.sample(range(1, 33), 3)
        sats = [(c, s) for c in range(3) for s in nums]
    out = ["new 0"] + est.eph_cmds(rng, sats, 0)
    t, i = 0, 0
    for k in range(n):
        i += 1
        t += rng.choice([0, 3, 100, 1000, 10000, 30000])
        r = rng.random()
        if r < .6:
            size = rng.choice([1, 2, 3, 6, 12, 30])
            if rng.random() < .6:
                pick = rng.sample(sats, min(size, len(sats)))
            else:
                pick = [rng.choice(sats) for _ in range(size)]
            out.append("obs %d %d %s" % (max(0, t - rng.choice([0, 0, 0, 50, 20000])), i, " ".join("%d:%d" % p for p in pick)))
        elif r < .75:
            out += est.eph_cmds(rng, [rng.choice(sats)], rng.choice([0, t, 90000000]))
        else:
            out.append(est.meas(rng, rng.choice(["imu", "pp"]), max(0, t - rng.choice([0, 0, 10000])), i, sats))
    return out


def corrupt(t, r):
    u = [o for e in t if e["op"] == "add" for x in e["uses"] for o in x["o"]]
    if not u:
        return None
    o = r.choice(u)
    k = r.randrange(5)
    if k == 0:
        o["g"] = (o["g"] + 1) % 3
    elif k == 1:
        o["sat"] = []
    elif k == 2:
        o["clk"] = [(o["clk"][0] + 1) % 3]
    elif k == 3:
        o["code"] += 1000
    else:
        o["jac"] = []
    return t


def run(ctx):
    rng = ctx.rng
    x = est.exe()
    gen, _ = vlib.tlc_generate("BundleGen.tla", "BundleGen.cfg")
    ctx.notes["behaviours_generated"] = len(gen)
    rng.shuffle(gen)
    segs = []
    for g in gen[:ctx.pick(400, 4000)]:
        c = ["new 0"] + est.eph_cmds(rng, [(c, s) for c in range(3) for s in (1, 2)], 0)
        for k, cmd in enumerate(g):
            f = cmd.split()
            c.append("obs %d %d %s" % (int(f[0]) * 1000, k + 1, " ".join(f[1:])))
        segs.append(c)
    for k in range(ctx.pick(250, 3000)):
        segs.append(seg(rng, rng.choice([3, 10, 30])))
    import C12
    for k in range(ctx.pick(60, 600)):
        segs.append(C12.eviction_seg(rng))
    ctx.required_ops = ["begin", "add", "eph"]
    ctx.assumptions = ["the receiver clock an observation is compared with is the one whose change moves its residual",
                       "orbit information is compared with a fresh computation for the instant and position, to 1 cm and 1 mm/s"]
    ctx.conform("ObsTrace.tla", "ObsTrace.cfg", x, segs, self_test=corrupt, chunk_events=3000)
