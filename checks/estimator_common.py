"""Building the estimator's driver: the repository's estimator and generated filter, with the filter's
propagation and update steps observed."""
import os, vlib
SRC = ["core/ekf/rtk_ekf_estimator.cxx", "core/ekf/rtk_ekf_impl.cxx", "core/sat_manager.cxx", "common/satellite/satellite.cxx",
       "common/satellite/satellite_state.cxx", "common/satellite/satellite_cache.cxx", "common/satellite/atm_correction.cxx",
       "common/satellite/azel.cxx", "common/ephemeris/gps.cxx", "common/ephemeris/galileo.cxx", "common/ephemeris/glonass.cxx",
       "utils/crc.cxx", "utils/wgs84.cxx", "common/utctime.cxx", "common/quantized_time.cxx", "common/print.cxx", "common/check.cxx",
       "common/logging/log_writer.cxx"]


def exe():
    root = vlib.gen_ekf()
    inc = ["-I" + root, "-I" + vlib.REPO, "-I/usr/include/eigen3"]
    obj = os.path.join(vlib.BUILD, "obj", "estimator", "observed", "rtk_ekf.o")
    err = vlib.compile_obj(os.path.join(root, "core/ekf/rtk_ekf.cxx"), obj,
                           ["-Dpredict=real_predict", "-DdoUpdate=real_doUpdate", *inc])
    if err:
        raise vlib.CheckError(err[-3000:])
    return vlib.build("estimator", "estimator.cpp", SRC, gen=True,
                      gen_srcs=["core/ekf/rtk_ekf_state.cxx", "core/ekf/rtk_ekf_types.cxx"], libs=[obj])


def scaled(rng, cmds, sats):
    """A behaviour generated by TLC (kinds and small stamps) as a workload: the stamps are spread over the
    history, or are ties and near-ties."""
    step = rng.choice([1, 3, 4, 6, 7, 11, 40, 1000, 1000, 17000, 24000, 26000, 40000])
    base = rng.choice([0, 1, 5, 20000])
    out = ["new %d" % rng.choice([0, step])]
    out += eph_cmds(rng, sats, 0)
    for k, c in enumerate(cmds):
        kind, t = c.split()
        out.append(meas(rng, kind, base + int(t) * step, k + 1, sats))
    return out


def eph_cmds(rng, sats, t):
    eph_cmds.n = getattr(eph_cmds, "n", 0) + 1
    return ["eph %d %d %d %d" % (c, s, t, (eph_cmds.n * 37 + k) % 2400 + 1) for k, (c, s) in enumerate(sats)]


def meas(rng, kind, t, i, sats, size=None):
    if kind == "obs":
        n = size if size is not None else rng.choice([1, 1, 2, 3, 5])
        pick = [rng.choice(sats) for _ in range(n)] if rng.random() < .3 else rng.sample(sats, min(n, len(sats)))
        return "obs %d %d %s" % (t, i, " ".join("%d:%d" % p for p in pick))
    return "%s %d %d" % (kind, t, i)


KINDS = ["imu", "imu", "imu", "pp", "obs", "fh"]


def stamps(rng, n, t0=0):
    """Arrival order of time stamps (units of 10 us)."""
    style = rng.randrange(8)
    step = rng.choice([3, 7, 60, 500, 500, 1000, 2000, 10000])
    out, t = [], t0
    if style == 0:                          # in order, some delayed by up to the history
        for k in range(n):
            t += step
            out.append(t - (rng.randrange(0, 120000) if rng.random() < .2 else 0))
    elif style == 1:                        # shuffled blocks
        while len(out) < n:
            b = [t + step * (k + 1) for k in range(rng.randrange(1, 25))]
            t = b[-1]
            rng.shuffle(b)
            out += b
    elif style == 2:                        # ties and near-ties around few instants
        inst = [t0 + rng.randrange(0, 60000) for _ in range(rng.randrange(1, 12))]
        for k in range(n):
            out.append(rng.choice(inst) + rng.choice([0, 0, 0, 1, -1, 2, -3, 4, -4, 5, -5, 6, -6, 7, 9, 11]))
    elif style == 3:                        # gaps
        for k in range(n):
            t += rng.choice([step, step, step, 90000, 99990, 100000, 100006, 100011, 250000, 5000000])
            out.append(t - rng.choice([0, 0, step, 2 * step + 1]))
    elif style == 4:                        # a burst within one second, more than the history holds
        for k in range(n):
            t += rng.choice([20, 50, 100, 700])
            out.append(t - rng.choice([0, 0, 0, 0, 15, 60, 1000, 8000]))
    elif style == 5:
        out = [t0 + rng.randrange(-200, 90000) for _ in range(n)]
    elif style == 6:                        # delayed by as much as the history just covers
        dense = rng.choice([900, 1500, 3000, 5000, 9000])
        for k in range(n):
            if k % 3 == 2 and t - t0 > 90000 or rng.random() < .1:
                out.append(max(t0, t - rng.choice([rng.randrange(90000, 100001), rng.randrange(97000, 99990), 99000])))
            else:
                t += dense
                out.append(t)
    else:                                   # several sensors with their own rates and latencies
        ev = []
        for lat, st in ((0, 400), (rng.randrange(20000), 10000), (rng.randrange(60000), 20000)):
            s = t0 + rng.randrange(st)
            for k in range(n):
                ev.append((s + k * st + lat, s + k * st))
        ev.sort()
        out = [e[1] for e in ev[:n]]
    return out


def random_seg(rng, n):
    t0 = rng.choice([0, 0, 12345])
    sats = [(c, s) for c in range(3) for s in rng.sample(range(1, 33), rng.choice([1, 2, 5]))]
    seg = ["new %d" % t0] + eph_cmds(rng, sats, t0)
    kinds = rng.choice([KINDS, KINDS, ["imu", "pp"], ["pp"], ["imu", "obs"], ["pp", "fh", "obs"]])
    for k, t in enumerate(stamps(rng, n, t0)):
        seg.append(meas(rng, rng.choice(kinds), t, k + 1, sats))
    return seg
