"""C23: simulated sensors sample at their rate and deliver recorded ephemerides in turn."""
import vlib
from log_common import SRC
ALL = SRC + ["sim/sim.cxx", "sim/sensors/gnss.cxx", "sim/sensors/imu.cxx", "sim/dynamics/car.cxx", "sim/dynamics/dynamics.cxx",
             "sim/controllers/pid.cxx", "common/satellite/satellite.cxx", "common/satellite/satellite_state.cxx",
             "common/satellite/atm_correction.cxx", "common/satellite/azel.cxx", "common/ephemeris/gps.cxx", "common/ephemeris/galileo.cxx",
             "common/ephemeris/glonass.cxx", "utils/crc.cxx"]
RATES = [1, 2, 4, 5, 8, 10, 20, 25, 50, 100, 125, 200, 250, 500]


def run(ctx):
    ctx.assumptions = ["sampling rates whose period is a whole number of microseconds",
                       "recorded times of a stream do not decrease; in the simulator as a whole they stay away from the steps by more than rounding of added-up times"]
    rng = ctx.rng
    ctx.model_check("SensorMC.tla", ctx.pick("SensorMC.cfg", "SensorMC7.cfg"))
    exe = vlib.build("sensors", "sensors.cpp", ALL, flags=["-fsanitize=address"], libs=["-fsanitize=address"])
    gen, _ = vlib.tlc_generate("SensorGen.tla", ctx.pick("SensorGen.cfg", "SensorGen4.cfg"))
    gen = sorted(set(map(tuple, gen)))
    ctx.notes["behaviours_generated"] = len(gen)
    gen = rng.sample(gen, min(len(gen), ctx.pick(1500, 12000)))

    def records(n, span, between=0):
        out, ids = [], 0
        ts = sorted(rng.choice([0, 0, -1000000, rng.randint(0, span), 1000 * rng.randint(0, span // 1000), span + 10 ** 8]) for _ in range(n))
        sats = [(rng.choice([0, 0, 1, 2]), rng.randint(1, 30)) for _ in range(max(1, n // rng.choice([1, 1, 2, 3])))]
        for t in ts:
            if between:   # the simulator's own steps add up to within a few nanoseconds: not on one of them
                t = t // 500 * 500 + between
            c, s = rng.choice(sats)
            ids += 1
            out.append("rec %d %d %d %d" % (c, s, ids, t))
        return out

    def motion(rest=.2):
        v = lambda k: 0 if rng.random() < rest else rng.randint(-k, k)
        return " ".join(map(str, [rng.choice([1, 2, 3, 3]), rng.randint(0, 3)] + [v(1000) for _ in range(3)] + [v(5000) for _ in range(3)] +
                                 [v(500) for _ in range(3)] + [v(500) for _ in range(3)]))

    def query(q, t, old=0):
        if q == "imu":
            return ["imu %d %s" % (t, motion())]
        if q == "gnss":
            return ["gnss %d %s %d" % (t, motion(), old)]
        cons = [0, 1, 2] * rng.choice([1, 1, 2])
        rng.shuffle(cons)
        return ["eph %d %d" % (c, t) for c in cons]
    segs = []
    for b in gen:
        ri, rg = rng.choice(RATES), rng.choice(RATES)
        noisy = rng.random() < .2
        p = 1000000 // rng.choice([ri, rg])
        seg = ["new 0 %d %d %d" % (noisy, ri, rg)] + records(rng.choice([1, 2, 4, 8]), 6 * p) + ["start"]
        t = 0
        for k in range(1, len(b), 2):
            t += {"none": 0, "bit": 1, "less": p - 1, "period": p, "more": p + 1, "far": 5 * p}[b[k]]
            q = b[k + 1]
            for one in (["imu", "gnss", "eph"] if q == "both" else [q]):
                seg += query(one, t, rng.choice([0, 0, 3]))
        segs.append(seg)
    for _ in range(ctx.pick(250, 2500)):
        ri, rg = rng.choice(RATES), rng.choice(RATES)
        seg = ["new 0 %d %d %d" % (rng.random() < .2, ri, rg)]
        n = rng.choice([1, 1, 3, 10, 30])
        base = rng.choice([1000000 // ri, 1000000 // rg, rng.choice([1, 999, 1000, 4000, 10000])])
        m = rng.choice([10, 40])
        seg += records(n, base * m) + ["start"]
        t = 0
        for _ in range(m):
            t += rng.choice([base, base, base, base - 1, base + 1, base // 2, base // 3 + 1, 0, 2 * base, 7 * base])
            seg += query(rng.choice(["imu", "gnss", "eph"]), t, rng.choice([0, 2]))
        segs.append(seg)
    # the simulator as a whole
    for _ in range(ctx.pick(120, 1200)):
        seg = ["new 1 %d %d %d" % (rng.random() < .5, rng.choice(RATES), rng.choice(RATES))]
        m = rng.choice([10, 60])
        dt = rng.choice([1000, 2000, 2500, 4000, 5000, 10000, 20000])
        seg += records(rng.choice([1, 2, 5, 12]), m * dt, 250) + ["start"]
        seg += ["step %d" % (dt if rng.random() < .8 else rng.choice([1000, 3000, 7000, 50000])) for _ in range(m)]
        segs.append(seg)
    segs.append(["new 0 0 100 5", "start"])   # nothing recorded: no satellite

    def corrupt(t, r):
        k = r.randrange(5)
        if k == 0:
            es = [e for e in t if e["op"] in ("imu", "gnss", "eph")]
            if not es:
                return None
            e = r.choice(es)
            if e["got"]:
                e["got"] = False
                return t
            return None
        es = [e for e in t if e["op"] == "gnss" and e["got"]] if k < 3 else [e for e in t if e["op"] == "imu" and e["got"]]
        if not es:
            return None
        e = r.choice(es)
        if k == 1:
            r.choice(e["obs"])["id"][1] += 31
        elif k == 2:
            e["obs"].pop()
        else:
            e["stamp"] += 1
        return t
    ctx.required_ops = ["imu", "gnss", "eph", "step", "started", "crash"]
    ctx.conform("SensorTrace.tla", "Trace.cfg", exe, segs, self_test=corrupt)
