"""C09: a satellite always answers with its closest ephemeris."""
import vlib
SRC = ["core/sat_manager.cxx", "common/satellite/satellite.cxx", "common/satellite/satellite_state.cxx",
       "common/ephemeris/gps.cxx", "common/ephemeris/galileo.cxx", "common/ephemeris/glonass.cxx", "utils/crc.cxx",
       "common/utctime.cxx", "common/print.cxx", "common/check.cxx"]
H2 = 7200000


def exe():
    return vlib.build("satellites", "satellites.cpp", SRC)


def queries(rng, c, sats, alm, n):
    out = []
    for _ in range(n):
        s = rng.choice(sats)
        ep = sorted(alm.get(s, ()))
        if not ep:
            continue
        e = rng.choice(ep)
        k = rng.random()
        if k < .25:
            t = e
        elif k < .5 and len(ep) > 1:      # around the middle between two epochs
            f = rng.choice(ep)
            t = (e + f) // 2 + rng.choice([-1, 0, 1, 1000, -1000])
        elif k < .8:
            t = e + rng.randrange(-H2, H2 + 1)
        else:
            t = rng.choice([ep[0] - rng.randrange(10**8), ep[-1] + rng.randrange(10**8)])
        d = min(abs(t - x) for x in ep)
        if d <= H2 and rng.random() < .6:
            out.append("state %d %d %d %s" % (c, s, t, rng.choice(["-", "a", "s%d" % s])))
        else:
            out.append("closest %d %d %d" % (c, s, t))
    return out


def random_seg(rng, n):
    c = rng.randrange(3)
    sats = [rng.randrange(1, 33) for _ in range(rng.choice([1, 1, 2, 3]))]
    style = rng.randrange(4)
    if style == 0:                     # issues every two hours, as broadcast, around a reference
        grid = [H2 * k for k in range(rng.choice([2, 4, 7, 11, 25, 40]))]
    elif style == 1:                   # epochs in the same second or a few milliseconds apart
        b = rng.randrange(10**6)
        grid = [b + rng.randrange(3000) for _ in range(6)]
    elif style == 2:
        grid = [900000 * k + rng.choice([0, 0, 0, 16000]) for k in range(12)]
    else:
        grid = [rng.randrange(10**8) for _ in range(8)]
    order = rng.randrange(3)
    seg, alm, nid = ["new"], {}, 0
    seq = sorted(grid) if order == 0 else sorted(grid, reverse=True) if order == 1 else grid
    for k in range(n):
        e = seq[k % len(seq)] if order < 2 and rng.random() < .8 else rng.choice(grid)
        s = rng.choice(sats)
        nid += 1
        seg.append("add %d %d %d %d" % (c, s, e, nid))
        alm.setdefault(s, set()).add(e)
        if rng.random() < .5:
            seg += queries(rng, c, sats, alm, rng.randrange(1, 4))
    seg += queries(rng, c, sats, alm, 6)
    if rng.random() < .15:
        seg.append(rng.choice(["state %d %d 5000 -", "closest %d %d 5000"]) % (c, 60))
    return seg


def run(ctx):
    rng = ctx.rng
    x = exe()
    ctx.model_check("AlmanacMC.tla", "AlmanacMC.cfg")
    ctx.model_check("AlmanacMC.tla", "AlmanacBroken.cfg", expect_violation="AnswersClosest is violated")
    gen, r = vlib.tlc_generate("AlmanacGen.tla", "AlmanacGen.cfg")
    ctx.notes["behaviours_generated"] = len(gen)
    segs = []
    if not ctx.thorough:
        gen = rng.sample(gen, min(len(gen), 500))
    for g in gen:
        c = rng.randrange(3)
        seg, alm = [], {}
        for cmd in g:
            seg.append(cmd.replace(" C ", " %d " % c))
            if cmd.startswith("add"):
                w = cmd.split()
                alm.setdefault(int(w[2]), set()).add(int(w[3]))
                for s in alm:
                    for t in range(-1800000, 9000001, 1800000):
                        d = min(abs(t - e) for e in alm[s])
                        if len(seg) < 60 or rng.random() < .1:
                            seg.append("state %d %d %d %s" % (c, s, t, rng.choice(["-", "a", "s%d" % s]))
                                       if d <= H2 else "closest %d %d %d" % (c, s, t))
        segs.append(seg)
    for k in range(ctx.pick(600, 8000)):
        segs.append(random_seg(rng, rng.choice([1, 2, 3, 5, 8, 13, 40, 70])))
    for c in range(3):
        segs += [["new", "state %d 7 0 -" % c], ["new", "closest %d 7 0" % c],
                 ["new", "add %d 6 0 1" % c, "state %d 7 0 -" % c]]

    def corrupt(t, r):
        k = r.randrange(2)
        a = [i for i, e in enumerate(t) if e["op"] == "answer"]
        if k == 0 and a:
            t[r.choice(a)]["ids"][0] += 1
            return t
        b = [e for e in t if e["op"] == "add"]
        if not b:
            return None
        r.choice(b)["size"] += 1
        return t
    ctx.required_ops = ["add", "answer", "crash"]
    ctx.assumptions = ["ephemerides whose orbits differ by a hundred metres or more are told apart by their answers",
                       "instants within the age limit of the closest ephemeris (two hours) for computed positions"]
    ctx.conform("AlmanacTrace.tla", "Trace.cfg", x, segs, self_test=corrupt)
