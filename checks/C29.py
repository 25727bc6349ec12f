"""C29: measurement models predict what was measured, and differentiate what they predict."""
import vlib
from C27 import SHAPES

DIRS = [((1, 0, 0), 1), ((0, -1, 0), 1), ((0, 0, 1), 1), ((1, 2, 2), 3), ((2, -1, 2), 3), ((-2, 2, 1), 3), ((2, 3, 6), 7), ((6, -2, 3), 7), ((-3, 6, 2), 7), ((1, 4, 8), 9), ((4, -4, 7), 9)]
RECS = [(64, 0, 0), (0, -64, 0), (45, 45, 0), (-40, 30, 40), (20, 20, -57), (-30, -55, 10), (0, 0, 64)]


def ints(v):
    return " ".join(map(str, v))


class Gen:
    def __init__(self, rng):
        self.rng = rng

    def quat(self, nmax=3):
        rng = self.rng
        q, n = rng.choice([s for s in SHAPES if s[1] <= nmax])
        q = list(q)
        rng.shuffle(q)
        return [x * rng.choice([1, -1]) for x in q] + [n]

    def vec(self, m=9):
        return [self.rng.randint(-m, m) for _ in range(3)]

    def prange(self, k, how):
        rng = self.rng
        d, h = rng.choice(DIRS)
        R = h * (rng.randint(200, 250) // h)
        c = rng.choice
        U = [c([1, 2, 3]), 0, 0, c([1, 2]), 0, c([1, 3, 5])]
        if how == "correlated" or rng.random() < .3:
            U[1], U[2], U[4] = c([1, -1, 2]), c([-2, 1]), c([1, -1, 3])
        vs = [rng.randint(-3000, 3000) for _ in range(3)]
        if how == "jump":
            vs = [x // 10 for x in vs]
        rate = round(sum(a * b for a, b in zip(d, vs)) / h) + rng.randint(-30, 30)
        return "prange %d %s %s %s %d %d %d %s %s %d %s %s" % (k, ints(self.quat()), ints(c(RECS)), ints(d), h, R, rng.randint(-200, 200),
                                                             ints([rng.randint(-900, 900), rng.randint(-30, 30)]), ints(vs), rate, ints(U), how)

    def phase(self, k, how, wave=(1, 1)):
        rng = self.rng
        (d1, h1), (d2, h2) = rng.choice(DIRS), rng.choice(DIRS)
        if rng.random() < .5:
            d2, h2 = d1, h1
        R1, R2 = h1 * (rng.randint(200, 250) // h1), h2 * (rng.randint(200, 250) // h2)
        if wave != (1, 1):
            R1 = R2 = 189
            while 189 % h1 or 189 % h2:
                (d1, h1), (d2, h2) = rng.choice(DIRS), rng.choice(DIRS)
        dist = sum((a * R1 / h1 - b * R2 / h2) ** 2 for a, b in zip(d1, d2)) ** .5 * 1e5
        dt = max(1, int(dist / rng.choice([1500, 3000])))
        if dist == 0:
            # the satellite has to move for the signal's delay to be found: keep the model's loop going
            d2, h2 = (rng.choice([x for x in DIRS if x[0] != d1 and 189 % x[1] == 0 and (wave != (1, 1) or True)]))
            R2 = R1 if R1 % h2 == 0 else h2 * (R1 // h2)
            if wave != (1, 1):
                R2 = R1
            dist = sum((a * R1 / h1 - b * R2 / h2) ** 2 for a, b in zip(d1, d2)) ** .5 * 1e5
            dt = max(1, int(dist / 2000))
        return "phase %d %s %s %s %d %d %s %d %d %d %d %d %d %d %d %d %s" % (
            k, ints(self.quat()), ints(rng.choice(RECS)), ints(d1), h1, R1, ints(d2), h2, R2, rng.randint(-900, 900), rng.randint(-900, 900), dt,
            rng.randint(-200, 200), rng.choice([1, 1, 2, 5]), *wave, how)

    def make(self, kind, k, how):
        rng = self.rng
        if kind == "prange":
            return self.prange(k, how)
        if kind == "phase":
            return self.phase(k, how)
        if kind == "clock":
            return "clock %d %d %s" % (k, rng.choice([0, 1, 2, 8, 16, 80, 800]), ints([rng.randint(1, 9) for _ in range(3)]))
        return "prior %d %s %s %s" % (k, ints(self.quat(5)), ints(self.vec(40)), ints([rng.randint(1, 9) for _ in range(6)]))

    def at(self, kind, k, mask):
        rng = self.rng
        c = rng.choice
        nb = {"prange": 6, "phase": 8, "clock": 4, "prior": 1}[kind]
        mask = {"none": 0, "all": 2 ** nb - 1, "one": 1 << rng.randrange(nb), "some": rng.randrange(2 ** nb)}[mask]
        sw = lambda: c([8, 8, 4, 0, 3, 7, 1, 9])
        v = [mask] + [rng.randint(-3, 3) for _ in range(8)]
        if kind == "prange":
            v += [*self.quat(), *self.vec(), *self.vec(20), rng.randint(-900, 900), rng.randint(-30, 30), *self.quat(), *self.vec(), sw(), *self.vec(4)]
        elif kind == "phase":
            v += [*self.quat(), *self.vec(), *self.quat(), *self.vec(), rng.randint(-900, 900), rng.randint(-900, 900), sw(), sw(), *self.quat(), *self.vec(), *self.vec(4)]
        elif kind == "clock":
            v += [rng.randint(-999, 999), rng.randint(-99, 99), rng.randint(-999, 999), rng.randint(-99, 99), rng.randint(-2, 10), rng.randint(-2, 10)]
        else:
            v += [c([0, rng.randint(-900, 900), rng.randint(-3, 3)]) for _ in range(3)] + [rng.randint(-9000, 9000) for _ in range(3)]
        return "at %d %s" % (k, ints(v))


def run(ctx):
    ctx.assumptions = ["geometry with rational rotations, whole metres, and satellites moving evenly",
                       "results to a few millimetres; rates to 6 cm/s (the line of sight is the one at the reference point, and the turning of the earth is approximated)",
                       "derivatives of rates leave out the change of directions (up to 2 cm/s per unit)",
                       "delays of the atmosphere are those the library computes for the reference point"]
    rng = ctx.rng
    ctx.model_check("MeasureMC.tla", ctx.pick("MeasureMC.cfg", "MeasureMC4.cfg"))
    exe = vlib.build("measure", "measure.cpp",
                     ["models/prange_model.cxx", "models/relative_carrier_phase_model.cxx", "models/gnss_dynamics_model.cxx", "models/pose_error_model.cxx",
                      "common/satellite/atm_correction.cxx", "common/satellite/azel.cxx", "common/satellite/satellite_state.cxx", "utils/wgs84.cxx",
                      "common/utctime.cxx", "common/print.cxx"],
                     flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"], libs=["-fsanitize=address,undefined"])
    gen, _ = vlib.tlc_generate("MeasureGen.tla", ctx.pick("MeasureGen.cfg", "MeasureGen4.cfg"))
    gen = sorted(set(map(tuple, gen)))
    ctx.notes["behaviours_generated"] = len(gen)
    gen = rng.sample(gen, min(len(gen), ctx.pick(2000, 20000)))
    g = Gen(rng)
    segs = []
    for b in gen:
        seg, has = ["new"], {}
        for p in range(1, len(b), 3):
            op, k, how = b[p:p + 3]
            if op == "at":
                seg.append(g.at(has[k], int(k), how))
            else:
                has[k] = op
                seg += [g.make(op, int(k), how), g.at(op, int(k), rng.choice(["none", "one", "some", "all"]))]
        segs.append(seg)
    for _ in range(ctx.pick(800, 8000)):
        seg, has = ["new"], {}
        for _ in range(rng.choice([6, 12])):
            k = rng.randint(1, 3)
            if k not in has or rng.random() < .25:
                has[k] = rng.choice(["prange", "prange", "phase", "phase", "clock", "prior"])
                seg.append(g.make(has[k], k, {"prange": rng.choice(["plain", "correlated", "jump"]), "phase": rng.choice(["same", "same", "jump"])}.get(has[k], "")))
            else:
                seg.append(g.at(has[k], k, rng.choice(["none", "one", "some", "all"])))
        segs.append(seg)

    def corrupt(t, r):
        es = [e for e in t if e["op"] in ("atclock", "atpose") or e["op"] == "atprange"]
        if not es:
            return None
        e = r.choice(es)
        e["res"][-1] += 30
        return t
    ctx.required_ops = ["prange", "phase", "clock", "prior", "atprange", "atphase", "atclock", "atpose"]
    ctx.conform("MeasureTrace.tla", "Trace.cfg", exe, segs, self_test=corrupt)
    # cycles that are not a metre long
    segs = []
    for i in range(ctx.pick(4, 12)):
        seg = ["new"]
        for _ in range(3):
            seg += [g.phase(1, "same", rng.choice([(1, 5), (1, 4), (3, 2), (2, 1)]))] + [g.at("phase", 1, rng.choice(["none", "all"])) for _ in range(3)]
        segs.append(seg)

    def classify(seg, tr, ev):
        if tr[ev].get("op") != "atphase":
            return None
        made = [e for e in tr[:ev] if e.get("op") == "phase" and e.get("k") == tr[ev].get("k")][-1]
        if made["wn"] == made["wd"]:
            return None
        rej, _ = vlib.validate("MeasureTrace.tla", "Trace.cfg", [tr], env={"AS_BUILT": "1"})
        return None if rej else "the change of range is multiplied by the wavelength"
    ctx.conform("MeasureTrace.tla", "Trace.cfg", exe, segs, classify=classify, label="wavelength")
