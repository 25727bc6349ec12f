"""C10: the satellite registry tracks each constellation's newest satellites."""
import vlib
import C09
W = 7000000      # all epochs and instants lie within the age limit of one another


def lookups(rng, c, s, epochs=()):
    k = rng.random()
    t = [rng.choice(list(epochs) or [0]) if rng.random() < .6 else rng.randrange(W) for _ in range(rng.choice([1, 2, 4]))]
    if k < .05:
        return "get %d %d %s" % (rng.choice([3, 4, 5]), s, t[0])
    if k < .1:
        return "get %d %d %s" % (c, rng.choice([-1, 0, 256 + s, 200]), t[0])
    return "get %d %d %s" % (c, s, " ".join(map(str, t)))


def random_seg(rng, n):
    seg, nid = ["new"], 0
    pools = {c: rng.sample(range(1, 64), rng.choice([3, 10, 29, 30, 31, 36, 60])) for c in range(3)}
    heavy = rng.choice([0, 1, 2, None])
    grid = [rng.randrange(W) for _ in range(4)]
    # most lookups of some runs ask for the same satellite again and again, while others come and go
    focus = {c: rng.choice(pools[c]) for c in range(3)} if rng.random() < .5 else {}
    for _ in range(n):
        c = heavy if heavy is not None and rng.random() < .7 else rng.randrange(3)
        s = rng.choice(pools[c])
        nid += 1
        seg.append("reg %d %d %d %d" % (c, s, rng.choice(grid), nid))
        while rng.random() < .35:
            d = rng.randrange(3)
            s = focus[d] if focus and rng.random() < .9 else rng.choice(pools[rng.choice([c, d])])
            seg.append(lookups(rng, d, s, grid))
    for c in range(3):
        for s in pools[c]:
            seg.append(lookups(rng, c, s, grid))
    return seg


def run(ctx):
    rng = ctx.rng
    x = C09.exe()
    ctx.model_check("RegistryMC.tla", "RegistryMC.cfg")
    gen, r = vlib.tlc_generate("RegistryGen.tla", "RegistryGen.cfg")
    ctx.notes["behaviours_generated"] = len(gen)
    if not ctx.thorough:
        gen = rng.sample(gen, min(len(gen), 250))
    segs = []
    for g in gen:
        c = rng.randrange(3)
        seg, focus = [], rng.choice([None, 1, 1, 2, 3, 28])
        for cmd in g:
            seg.append(cmd.replace(" C ", " %d " % c))
            if focus and len(seg) > 28 and rng.random() < .5:
                seg.append("get %d %d 0" % (c, focus))
        for s in ([focus] if focus else []) + [1, 2, 3, 4, 5, 28, 40, 41]:
            seg.append("get %d %d 0 3600000" % (c, s))
        seg += ["get %d %d 0" % (rng.choice([d for d in range(6) if d != c]), rng.randrange(1, 42)) for _ in range(3)]
        segs.append(seg)
    for k in range(ctx.pick(250, 3000)):
        segs.append(random_seg(rng, rng.choice([1, 5, 40, 120, 200])))

    def corrupt(t, r):
        g = [e for e in t if e["op"] == "get"]
        if not g:
            return None
        e = r.choice(g)
        if not e["ok"]:
            e.update(ok=True, g=e["c"], n=e["s"], size=1, ans=[])
        elif r.random() < .3:
            e["size"] += 1
        elif r.random() < .5:
            e["g"] = (e["g"] + 1) % 3
        elif e["ans"] and e["ans"][0]["ids"]:
            e["ans"][0]["ids"][0] += 1000
        else:
            return None
        return t
    ctx.required_ops = ["reg", "get"]
    ctx.assumptions = ["a constellation's table holds 29 satellites (a history buffer of 30 slots)"]
    ctx.conform("RegistryTrace.tla", "RegistryTrace.cfg", x, segs, self_test=corrupt)
