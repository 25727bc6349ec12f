"""C15: Galileo ephemerides are assembled only from valid pages of one issue."""
import vlib
import nav_common as nav


def message(rng, sat, kind, iod, harm, **kw):
    w = nav.gal_word(rng, kind, iod, sat if harm != "svid" else rng.choice([sat ^ 1, sat ^ 32, 0]), **kw)
    p = nav.gal_page(rng, w)
    if harm == "bad":
        k = rng.randrange(8)
        if k == 0:                        # a protected bit
            p[rng.choice(list(range(114)) + list(range(128, 128 + 106)))] ^= 1
        elif k == 1:                      # several
            for n in rng.sample(list(range(114)) + list(range(128, 128 + 82)), rng.choice([2, 3, 5])):
                p[n] ^= 1
        elif k == 2:                      # an alert page, intact
            p[rng.choice([1, 129])] = 1
            nav.gal_redo_crc(p)
        elif k == 3:                      # wrongly paired, intact
            p[0], p[128] = rng.choice([(1, 1), (0, 0), (1, 0)])
            nav.gal_redo_crc(p)
        elif k == 4:
            return "gal %d %s" % (sat, nav.cut(rng, nav.to_words(p)))
        elif k == 5:                      # another word
            nav.put(p, 2, nav.number(rng.choice([6, 7, 8, 10, 32, 63]), 6))
            nav.gal_redo_crc(p)
        elif k == 6:                      # word 0 without the time
            w = nav.gal_word(rng, 0, iod, sat)
            nav.put(w, 6, rng.choice([[0, 0], [0, 1], [1, 1]]))
            return "gal %d %s" % (sat, nav.to_words(nav.gal_page(rng, w)))
        else:
            return "gal %d %s" % (sat, nav.to_words(nav.gal_page(rng, nav.gal_word(rng, 4, iod, sat ^ rng.choice([1, 2, 4, 63])))))
    return "gal %d %s" % (sat, nav.to_words(p))


def random_seg(rng, n):
    seg = ["new"]
    sats = rng.sample(range(1, 37), rng.choice([1, 1, 2]))
    iod = {s: rng.choice([0, 1, 255, 256, 1023, rng.randrange(1024)]) for s in sats}
    orders = [[2, 4, 6, 1, 3, 5, 0], [2, 4, 0, 1, 3, 5], [2, 0, 1, 3, 4, 5], [1, 2, 3, 4, 5, 0]]
    order = {s: rng.choice(orders) for s in sats}
    pos = {s: rng.randrange(6) for s in sats}
    old = {s: [] for s in sats}
    for _ in range(n):
        s = rng.choice(sats)
        k = order[s][pos[s] % len(order[s])]
        pos[s] += 1
        if rng.random() < .06:
            iod[s] = rng.choice([0, (iod[s] + 1) % 1024, iod[s] ^ 256, iod[s] ^ 512, rng.randrange(1024)])
        r = rng.random()
        if r < .05:
            continue
        if r < .12 and old[s]:
            seg.append(rng.choice(old[s]))
            continue
        if r < .16:
            k = rng.randrange(6)
        m = message(rng, s, k, iod[s], "bad" if rng.random() < .06 else "ok")
        old[s] = (old[s] + [m])[-7:]
        seg.append(m)
    return seg


KNOWN = "last 16 bits of every word are taken from bit 106 of the odd page instead of bit 2"


def run(ctx):
    rng = ctx.rng
    x = nav.exe()
    ctx.model_check("AssemblyMC.tla", "AsmGalMC.cfg")
    ctx.model_check("AssemblyMC.tla", "AsmGalMC2.cfg")
    gen, r = vlib.tlc_generate("AssemblyMC.tla", ctx.pick("AsmGalGen.cfg", "AsmGalGen2.cfg"))
    gen = sorted(set(map(tuple, gen)))
    ctx.notes["behaviours_generated"] = len(gen)
    gen = rng.sample(gen, min(len(gen), ctx.pick(400, 4000)))
    segs = []
    for g in gen:
        a, b = rng.choice([(0, 1), (3, 259), (255, 511), rng.sample(range(1024), 2)])
        seg = ["new"]
        for c in g[1:]:
            k, i, h = c.split()
            seg.append(message(rng, 7, int(k), {"1": a, "2": b}[i], h))
        segs.append(seg)
    for _ in range(ctx.pick(80, 800)):
        segs.append(random_seg(rng, rng.choice([10, 60, 150])))

    def corrupt(t, r):
        y = [e for e in t if e.get("ok")]
        if not y:
            return None
        e = r.choice(y)
        k = r.choice([f for f in e["eph"] if isinstance(e["eph"][f], list)])
        e["eph"][k][-1] += 1
        return t
    ctx.required_ops = ["gal"]
    ctx.assumptions = ["the ionosphere coefficients of word 5 are not decoded",
                       "when the collection begun by word 2 is complete and consistent the ephemeris must be delivered; a consistent set "
                       "of latest words may be delivered earlier"]
    # The specification proper first; the variant that describes the known finding only if it alone explains everything
    cfg = "NavGalileo2.cfg"
    finding = next((f for f in ctx.findings if f["signature"] == KNOWN), None)
    if finding:
        traces = vlib.run_driver(x, segs)
        rejects, _ = vlib.validate("NavGalileoTrace.tla", cfg, traces, max_rejects=1, enough=1)
        if rejects:
            cfg = "NavGalileo106.cfg"
            ctx.known.append(finding)
    traces = ctx.conform("NavGalileoTrace.tla", cfg, x, segs, self_test=corrupt)
    ctx.notes["ephemerides_yielded"] = sum(1 for t in traces for e in t if e.get("ok"))
