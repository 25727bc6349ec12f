"""C14: GPS ephemerides are assembled only from one issue of data."""
import vlib
import nav_common as nav


def message(rng, sat, kind, issue, harm):
    b = nav.gps_subframe(rng, kind, issue)
    if harm == "bad":
        k = rng.randrange(4)
        if k == 0:
            b[rng.randrange(8)] ^= 1
        elif k == 1:
            nav.put(b, 43, nav.number(rng.choice([0, 4, 5, 6, 7]), 3))
        elif k == 2:
            return "gps %d %s" % (sat, nav.cut(rng, nav.gps_hex(rng, b)))
        else:
            nav.put(b, 0, nav.number(rng.choice([0, 0x74, 0xFF, 0x8A, 0xCB]), 8))
    return "gps %d %s" % (sat, nav.gps_hex(rng, b))


def random_seg(rng, n):
    """one to three satellites broadcasting for a while, with losses, repeats, damage and changes of issue"""
    seg = ["new"]
    sats = rng.sample(range(1, 33), rng.choice([1, 1, 2, 3]))
    issue = {s: rng.choice([0, 1, 255, rng.randrange(256)]) for s in sats}
    pos = {s: rng.randrange(1, 6) for s in sats}
    old = {s: [] for s in sats}
    for _ in range(n):
        s = rng.choice(sats)
        k = pos[s]
        pos[s] = k % 5 + 1
        if rng.random() < .12:
            issue[s] = rng.choice([0, (issue[s] + 1) % 256, rng.randrange(256), issue[s] ^ 1, issue[s] ^ 128])
        r = rng.random()
        if r < .1:
            continue
        if r < .2 and old[s]:
            seg.append(rng.choice(old[s]))
            continue
        if r < .25:
            k = rng.randrange(1, 4)
        m = message(rng, s, k, issue[s], "bad" if rng.random() < .08 else "ok")
        old[s] = (old[s] + [m])[-4:]
        seg.append(m)
    return seg


def run(ctx):
    rng = ctx.rng
    x = nav.exe()
    ctx.model_check("AssemblyMC.tla", "AsmGpsMC.cfg")
    gen, r = vlib.tlc_generate("AssemblyMC.tla", ctx.pick("AsmGpsGen.cfg", "AsmGpsGen5.cfg"))
    gen = sorted(set(map(tuple, gen)))
    ctx.notes["behaviours_generated"] = len(gen)
    gen = rng.sample(gen, min(len(gen), ctx.pick(1500, 12000)))
    segs = []
    for g in gen:
        a, b = rng.choice([(0, 1), (0, rng.randrange(1, 256)), (rng.randrange(256), 0), rng.sample(range(256), 2)])
        seg = ["new"]
        for c in g[1:]:
            k, i, h = c.split()
            seg.append(message(rng, 7, int(k), {"1": a, "2": b}[i], h))
        for k in rng.sample([1, 2, 3], rng.randrange(0, 4)):
            seg.append(message(rng, 7, k, rng.choice([a, b, b]), "ok"))
        segs.append(seg)
    for _ in range(ctx.pick(120, 1200)):
        segs.append(random_seg(rng, rng.choice([10, 60, 150])))

    def corrupt(t, r):
        y = [e for e in t if e.get("ok")]
        if not y or r.random() < .2:
            e = r.choice([e for e in t if e["op"] == "gps"] or [None])
            if not e or len(e["b"]) < 40:
                return None
            e["ok"] = not e["ok"]
            e.setdefault("eph", {})
            return t if not e["ok"] else None
        e = r.choice(y)
        k = r.choice([f for f in e["eph"] if isinstance(e["eph"][f], list)])
        e["eph"][k][-1] += 1
        return t
    ctx.required_ops = ["gps"]
    ctx.assumptions = ["group delay field -128 (not available) is reported as 0; the fit interval flag as 4 (flag 0) or 0 (flag 1)",
                       "alert and anti-spoofing flags and the age of data offset are not decoded"]
    traces = ctx.conform("NavGpsTrace.tla", "Trace.cfg", x, segs, self_test=corrupt)
    ctx.notes["ephemerides_yielded"] = sum(1 for t in traces for e in t if e.get("ok"))
