"""C16: GLONASS ephemerides are assembled only from valid strings of one frame."""
import vlib
import nav_common as nav


def message(rng, sat, kind, mark, harm):
    b = nav.glo_string(rng, kind, mark)
    if harm == "bad":
        k = rng.randrange(5)
        if k == 0:                                    # one bit: a check bit alone does no harm
            b[rng.randrange(85)] ^= 1
        elif k == 1:
            for n in rng.sample(range(85), rng.choice([2, 2, 2, 3, 4])):
                b[n] ^= 1
        elif k == 2:                                  # one information bit and a check bit
            b[rng.randrange(77)] ^= 1
            b[rng.randrange(77, 85)] ^= 1
        elif k == 3:
            return "glo %d %s" % (sat, nav.cut(rng, nav.to_words(b)))
        else:
            nav.put(b, 1, nav.number(rng.choice([0, 6, 9, 15]), 4))
            nav.glo_checks(b)
    return "glo %d %s" % (sat, nav.to_words(b))


def random_seg(rng, n):
    seg = ["new"]
    sats = rng.sample(range(1, 25), rng.choice([1, 1, 2, 3]))
    mark = {s: rng.choice([0, 1, 255, 256, 65535, rng.randrange(65536)]) for s in sats}
    pos = {s: rng.randrange(1, 6) for s in sats}
    old = {s: [] for s in sats}
    long = rng.random() < .5
    for _ in range(n):
        s = rng.choice(sats)
        k = pos[s]
        pos[s] = k + 1
        if k >= (5 if long else 15):
            pos[s] = 1
            mark[s] = rng.choice([(mark[s] + 1) % 65536, mark[s] ^ 256, mark[s], rng.randrange(65536)])
        r = rng.random()
        if r < .08:
            continue
        if r < .18 and old[s]:
            seg.append(rng.choice(old[s]))
            continue
        if r < .22:
            k = rng.randrange(1, 6)
        m = message(rng, s, k, mark[s], "bad" if rng.random() < .08 else "ok")
        old[s] = (old[s] + [m])[-6:]
        seg.append(m)
    return seg


def run(ctx):
    rng = ctx.rng
    x = nav.exe()
    ctx.model_check("AssemblyMC.tla", "AsmGloMC.cfg")
    ctx.model_check("AssemblyMC.tla", "AsmGloMC2.cfg")
    gen, r = vlib.tlc_generate("AssemblyMC.tla", ctx.pick("AsmGloGen.cfg", "AsmGloGen2.cfg"))
    gen = sorted(set(map(tuple, gen)))
    ctx.notes["behaviours_generated"] = len(gen)
    gen = rng.sample(gen, min(len(gen), ctx.pick(500, 6000)))
    segs = []
    for g in gen:
        a, b = rng.choice([(0, 1), (1, 0), (1, 257), (255, 256), rng.sample(range(65536), 2)])
        seg = ["new"]
        for c in g[1:]:
            k, i, h = c.split()
            seg.append(message(rng, 7, int(k), {"1": a, "2": b}[i], h))
        segs.append(seg)
    for _ in range(ctx.pick(120, 1200)):
        segs.append(random_seg(rng, rng.choice([10, 60, 150])))

    def corrupt(t, r):
        y = [e for e in t if e.get("ok")]
        if not y:
            return None
        e = r.choice(y)
        if r.random() < .2:
            e["ok"] = False
            return t
        k = r.choice([f for f in e["eph"] if isinstance(e["eph"][f], list)])
        e["eph"][k][-1] += 1
        return t
    ctx.required_ops = ["glo"]
    ctx.assumptions = ["strings of one frame are those between which the receiver's time mark does not change",
                       "a string whose only damaged bit is a check bit counts as intact, as the interface document says",
                       "the interval and day numbers of one frame's strings 4 and 5 are used as broadcast"]
    traces = ctx.conform("NavGlonassTrace.tla", "Trace.cfg", x, segs, self_test=corrupt)
    ctx.notes["ephemerides_yielded"] = sum(1 for t in traces for e in t if e.get("ok"))
