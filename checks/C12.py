"""C12: rejected measurements have no effect, the history stays bounded and is never empty."""
import estimator_common as est
import vlib
H2 = 720000000


def faulty_seg(rng, n):
    """Sensible measurements mixed with stale ones, unknown satellites, too large bundles, gaps."""
    t0 = rng.choice([0, 0, 777])
    sats = [(c, s) for c in range(3) for s in rng.sample(range(1, 33), rng.choice([1, 2, 12]))]
    seg = ["new %d" % t0] + est.eph_cmds(rng, sats, t0)
    t, i = t0, 0
    for k in range(n):
        i += 1
        r = rng.random()
        if r < .5:
            t += rng.choice([3, 60, 400, 1000, 5000, 20000])
            seg.append(est.meas(rng, rng.choice(est.KINDS), t - rng.choice([0, 0, 0, 40, 3000]), i, sats))
        elif r < .65:                      # about as old as the history
            seg.append(est.meas(rng, rng.choice(est.KINDS), t - rng.choice([90000, 99990, 100000, 100001, 100007, 150000, 2000000]), i, sats))
        elif r < .78:                      # a satellite that is not known
            known = [rng.choice(sats) for _ in range(rng.randrange(0, 4))]
            bad = (rng.choice([0, 1, 2, 0, 1, 2, 3, 4, 5]), rng.choice([0, 33, 40, 63, 200]))
            known.insert(rng.randrange(len(known) + 1), bad)
            seg.append("obs %d %d %s" % (t + rng.choice([0, 100, 20000]), i, " ".join("%d:%d" % p for p in known)))
        elif r < .84:                      # the size of bundles
            m = rng.choice([0, 29, 30, 30, 31, 31, 32, 60, 64])
            seg.append("obs %d %d %s" % (t, i, " ".join("%d:%d" % rng.choice(sats) for _ in range(m))))
        elif r < .9:
            t += rng.choice([100000, 100010, 200000, 1000000, 6000000])
            seg.append(est.meas(rng, rng.choice(est.KINDS), t, i, sats))
        elif r < .95:                      # new ephemerides, perhaps of new satellites
            seg += est.eph_cmds(rng, [rng.choice(sats)] + ([(rng.randrange(3), rng.randrange(1, 33))] if rng.random() < .3 else []), t)
        else:                              # the same instant again and again
            for _ in range(rng.randrange(2, 6)):
                i += 1
                seg.append(est.meas(rng, rng.choice(est.KINDS), t, i, sats))
    return seg


def eviction_seg(rng):
    """More satellites of a constellation than the registry holds, bundles naming the dropped ones, and delayed
    measurements that replay bundles of dropped satellites."""
    c = rng.randrange(3)
    sats = [(c, s) for s in rng.sample(range(1, 61), rng.choice([28, 29]))]
    seg = ["new 0"] + est.eph_cmds(rng, sats, 0)
    t, i = 0, 0
    for k in range(rng.randrange(6, 25)):
        i += 1
        if rng.random() < .35:
            s = rng.randrange(61, 120)
            seg += est.eph_cmds(rng, [(c, s)], t)
            sats.append((c, s))
        t += rng.choice([40, 1000, 4000])
        late = rng.choice([0, 0, 2000, 5000])
        kind = rng.choice(["obs", "obs", "imu", "pp"])
        seg.append(est.meas(rng, kind, max(0, t - late), i, rng.choice([sats[:4], sats, sats[-5:]]), size=rng.choice([1, 2, 4])))
    return seg


def stale_seg(rng):
    """Hours between the ephemerides and the observations."""
    sats = [(0, 3), (2, 4), (1, 5)]
    toe = rng.choice([0, H2 // 2, 50000])
    seg = ["new 0"] + est.eph_cmds(rng, sats, toe)
    t, i = 0, 0
    for k in range(rng.randrange(3, 9)):
        i += 1
        t += rng.choice([1000, 100000, H2 // 3, H2 // 2, H2 - 1000])
        if t > 2000000000:
            break
        if rng.random() < .5:
            t = max(t, toe + H2 + rng.choice([-250000, -300000, 110000, 150000, 1000000]))
        seg.append(est.meas(rng, rng.choice(["obs", "obs", "obs", "imu"]), t, i, sats, size=rng.choice([1, 2, 3])))
        if rng.random() < .4 and t + H2 < 2100000000:  # not yet current when the signal was sent, but when it is received
            x = (rng.randrange(3), 10 + k)
            seg += est.eph_cmds(rng, [x], t + H2 - rng.choice([0, 1, 2000, 4000, 6500, 7500, 9000, 120000]))
            i += 1
            seg.append("obs %d %d %d:%d" % (t, i, *x))
        if rng.random() < .3:
            seg += est.eph_cmds(rng, [rng.choice(sats)], t)
    return seg


def corrupt(t, r):
    bad = [e for e in t if e["op"] == "add" and not e["ok"]]
    good = [e for e in t if e["op"] == "add" and e["ok"] and len(e["states"]) > 1]
    if bad and r.random() < .5:
        e = r.choice(bad)
        if r.random() < .5:
            e["fp"][3] ^= 1
        else:
            e["qn"] += 1
        return t
    if good:
        r.choice(good)["ok"] = False
        return t
    return None


def run(ctx):
    rng = ctx.rng
    x = est.exe()
    ctx.model_check("EstimatorMC.tla", "EstimatorMC.cfg")
    gen, _ = vlib.tlc_generate("EstimatorGen.tla", "EstimatorGen.cfg")
    rng.shuffle(gen)
    segs = [est.scaled(rng, g, [(0, 3), (1, 4), (2, 5)]) for g in gen[:ctx.pick(400, 4000)]]
    ctx.notes["behaviours_generated"] = len(gen)
    for k in range(ctx.pick(150, 2500)):
        segs.append(est.random_seg(rng, rng.choice([10, 40, 140, 200])))
    for k in range(ctx.pick(250, 4000)):
        segs.append(faulty_seg(rng, rng.choice([6, 15, 40, 90])))
    for k in range(ctx.pick(60, 800)):
        segs.append(eviction_seg(rng))
    for k in range(ctx.pick(60, 800)):
        segs.append(stale_seg(rng))
    ctx.required_ops = ["begin", "add", "eph"]
    ctx.assumptions = ["a constellation's table holds 29 satellites, the history 99 states, a bundle at most 30 observations",
                       "the observations of a bundle carry the bundle's time stamp; measurement values are finite; the receiver is not at the centre of the Earth",
                       "stamps within half a time quantum of the oldest state, and ephemerides within two seconds of two hours old, may be accepted or rejected"]
    ctx.conform("EstimatorTrace.tla", "EstimatorBounds.cfg", x, segs, self_test=corrupt, chunk_events=3000)
