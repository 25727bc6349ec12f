"""C03: order and arithmetic of time stamps."""
import vlib
E9 = 10**9


def rand_sec(rng):
    k = rng.randrange(8)
    if k < 3:
        return rng.randrange(-5, 6)
    if k == 3:
        return rng.randrange(1500000000, 1800000000)
    if k == 4:
        return rng.randrange(-2**31, 2**33)
    if k == 5:
        return rng.choice([2**20, 2**31, 2**32, 2**40, -2**20, -2**31, -2**40]) + rng.randrange(-2, 3)
    return rng.randrange(-2**41, 2**41)


def rand_ns(rng):
    return rng.choice([0, 1, 2, E9 - 1, E9 - 2, 5 * 10**8, rng.randrange(E9), rng.randrange(E9), rng.randrange(1000) * 10**6])


def run(ctx):
    rng = ctx.rng
    exe = vlib.build("timestamps", "timestamps.cpp", ["common/utctime.cxx", "common/quantized_time.cxx"])
    ctx.model_check("TimeMC.tla", "TimeMC.cfg")
    segs = []
    # exhaustive on a grid around second boundaries, quantum boundaries and equal seconds
    vals = [(s, n) for s in (-2, -1, 0, 1, 2) for n in (0, 1, 49998, 49999, 50000, 50001, 50002, 100000, E9 - 50002,
                                                        E9 - 50001, E9 - 50000, E9 - 49998, E9 - 1)]
    grid = [("cmp %d %d %d %d" % (a[0] + o, a[1], b[0] + o, b[1])) for o in (0, 1600000000)
            for a in vals for b in vals]
    arith = []
    for o in (0, 1600000000, -1000000000):
        for a in vals:
            for b in vals:
                if rng.random() < ctx.pick(.25, 1):
                    arith.append("add %d %d %d %d" % (a[0] + o, a[1], b[0], b[1]))
                    arith.append("sub %d %d %d %d" % (a[0] + o, a[1], b[0], b[1]))
                    d = b[0] * E9 + b[1]
                    arith.append("addf %d %d %d" % (a[0] + o, a[1], d))
                    arith.append("subf %d %d %d" % (a[0] + o, a[1], d))
    grid += arith
    for i in range(0, len(grid), 200):
        segs.append(["new 0 0"] + grid[i:i + 200])
    # sentinels: the largest and smallest representable stamps compare like numbers
    big = [(2**63 - 1, 0), (-2**63, 0), (2**63 - 1, E9 - 1), (0, 0), (1600000000, 5)]
    segs.append(["new 0 0"] + ["cmp %d %d %d %d" % (*a, *b) for a in big for b in big
                               if abs(a[0] - b[0]) < 2**63 and a[0] - b[0] > -2**63])

    def dur(r):
        k = r.randrange(6)
        m = [10, 10**6, 2 * E9, 10**5 * E9, 10**4 * E9][min(k, 4)]
        d = r.randrange(-m, m + 1)
        return d if k < 5 else (d // 10**6) * 10**6
    for _ in range(ctx.pick(80, 1200)):
        s = ["new %d %d" % (rand_sec(rng), rand_ns(rng))]
        for _ in range(100):
            k = rng.randrange(16)
            a = (rand_sec(rng), rand_ns(rng))
            b = (rand_sec(rng), rand_ns(rng)) if rng.random() < .6 else (a[0], rand_ns(rng))
            if k < 4:
                s.append("cmp %d %d %d %d" % (*a, *b))
            elif k == 4:
                s.append("add %d %d %d %d" % (*a, *b))
            elif k == 5:
                s.append("sub %d %d %d %d" % (*a, *b))
            elif k == 6:
                s.append("%s %d %d %d" % (rng.choice(["addf", "subf"]), *a, dur(rng)))
            elif k == 7:
                s.append("%s %d %d %d" % (rng.choice(["addi", "subi"]), *a, rng.randrange(-2**30, 2**30)))
            elif k == 8:
                s.append("tosec %d %d" % (rng.randrange(-10**5, 10**5), rand_ns(rng)))
            elif k == 9:
                s.append("ofsec %d" % abs(dur(rng)))
            elif k == 10:
                s.append("make %d %d" % (rand_sec(rng), rng.choice([rand_ns(rng), rng.randrange(0, 2 * E9)])))
            elif k == 11:
                s.append("%s %d %d" % (rng.choice(["inc", "dec"]), rng.randrange(-10**6, 10**6), rand_ns(rng)))
            elif k in (12, 13):
                s.append("%s %d" % (rng.choice(["incf", "decf"]), dur(rng)))
            else:
                s.append("%s %d" % (rng.choice(["inci", "deci"]), rng.randrange(-10**6, 10**6)))
        segs.append(s)
    ctx.required_ops = ["cmp", "add", "sub", "addf", "subf", "addi", "subi", "tosec", "ofsec", "make", "inc", "dec",
                        "incf", "decf", "inci", "deci"]

    def corrupt(t, r):
        es = [e for e in t if e["op"] in ("cmp", "add", "incf")]
        if not es:
            return None
        e = r.choice(es)
        if e["op"] == "cmp":
            k = r.choice(["lt", "ge", "eq"])
            e["r"][k] = not e["r"][k]
        else:
            e["r"][2] = (e["r"][2] + 1) % 2**20
        return t
    ctx.assumptions = ["floating point durations up to 1e5 s (beyond that the double itself is coarser than 1 ns)",
                       "quantised comparison at exactly half the quantum may fall either way (floating point)"]
    ctx.conform("TimeTrace.tla", "TimeTrace.cfg", exe, segs, self_test=corrupt)
