"""C28: satellite states are those of the orbit and the clock that the ephemeris describes."""
from fractions import Fraction as F
from math import lcm
import vlib
from C27 import Rot

SHAPES = [(0, 1, 1), (7, 25, 24), (5, 13, 12), (20, 101, 99), (9, 41, 40)]
ANGLES = [(1, 0, 1), (0, 1, 1), (4, 3, 5), (3, 4, 5), (4, -3, 5), (3, -4, 5), (-3, 4, 5), (1, 1, 0)]
ANOMALIES = {"perigee": [(1, 0, 1)], "apogee": [(-1, 0, 1)], "up": [(0, 1, 1), (3, 4, 5), (-4, 3, 5)], "down": [(0, -1, 1), (-3, -4, 5), (12, -5, 13)],
             "any": [(1, 0, 1), (-1, 0, 1), (0, 1, 1), (4, 3, 5), (-5, 12, 13), (-3, -4, 5), (3, -4, 5), (24, -7, 25)]}


def about(axis, g):
    a, b, h = g
    return Rot((a, *[b * x for x in axis]), h)


def cross(u, v):
    return (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])


def den(v):
    return lcm(*[F(x).denominator for x in v])


def fits(v):
    return all(abs(x.numerator) < 2 ** 28 and x.denominator < 2 ** 27 for x in map(F, v))


def exact(shape, E, node, inc, peri, du, di, kap, spin, tilt):
    en, ed, ew = shape
    a, b, h = E
    radial = F(ed * h - en * a, ed * h)
    p = (F(a, h) - F(en, ed), F(ew * b, ed * h), F(0))
    rate = (F(-b, h) / radial, F(ew * a, ed * h) / radial, F(0))
    st = tuple(x * (radial + F(*kap)) / radial for x in p)
    rot = (about((0, 0, 1), node) * (about((1, 0, 0), inc) * about((1, 0, 0), di))) * (about((0, 0, 1), peri) * about((0, 0, 1), du))
    pos = rot.turn(st)
    vel = [x + F(spin, 2) * y + F(tilt, 2) * z for x, y, z in
           zip(rot.turn(rate), cross((0, 0, 1), pos), cross(about((0, 0, 1), node).turn((1, 0, 0)), pos))]
    # numbers that the specification goes through
    big = max(rot.n ** 2 * max(den(st), 1) * 4, rot.n ** 2 * den(rate) * 4 * max(1, max(abs(x) for x in rate)), max(lcm(den(pos), den(rate)), 1))
    mid = den(st) * ed * h * abs(kap[1])
    ok = big < 2 ** 30 and mid < 2 ** 30 and fits(pos)
    big2 = den(rot.turn(rate)) * 1
    for q in (pos,):
        big2 = max(big2, 8 * lcm(2 * den(q), den(rot.turn(rate))) * 8, 16 * den(q) * 25)
    return rot, pos, vel, ok, big2 < 2 ** 30 and fits(vel)


class Gen:
    def __init__(self, rng):
        self.rng = rng

    def kep(self, where="any", corr="plain", age="now"):
        rng = self.rng
        c = rng.choice
        for _ in range(200):
            shape = c(SHAPES)
            E = c(ANOMALIES[where])
            ang = lambda: c([g for g in ANGLES if g[2]])
            node, inc, peri = ang(), c([(1, 0, 1), (4, 3, 5), (3, 4, 5), (0, 1, 1), (4, -3, 5)]), ang()
            du = di = (1, 0, 1)
            kap = (0, 1)
            spin = tilt = 0
            if corr == "plain":
                spin, tilt = c([0, -1, 1, 2, -3]), c([0, 0, 1, -1])
            if corr in ("u", "all"):
                du = c([(4, 3, 5), (3, -4, 5), (4, -3, 5)])
            if corr in ("i", "all"):
                di = c([(4, 3, 5), (3, -4, 5), (4, -3, 5)])
            if corr in ("r", "all"):
                kap = c([(1, 4), (-1, 5), (3, 10), (1, 10)])
            if corr == "all":
                node = c([(1, 0, 1), (0, 1, 1)])
                shape, E = c(SHAPES[:2]), c([e for e in ANOMALIES[where] if e[2] <= 5])
            rot, pos, vel, ok, vok = exact(shape, E, node, inc, peri, du, di, kap, spin, tilt)
            if ok and (vok or corr != "plain"):
                break
        else:
            raise AssertionError("no arc")
        Dv = den(vel) if corr == "plain" and vok else 0
        dt = {"now": c([0, 0, 500, -1000]), "early": -c([900000, 3600000, 60500]), "late": c([900000, 3600000, 7100000]),
              "edge": c([-7200000, 7200000, 7199999, -7199999]), "stale": c([7200001, -7200001, 7210000, -604800000, 604800000, 302400000])}[age]
        dtoc = c([0, 1, -1, 7200, -7200, 3600, 600, rng.randint(-7200, 7200)]) if rng.random() < .7 else dt // 1000
        af = (rng.randint(-90000, 90000), rng.randint(-200, 200), c([0, 0, rng.randint(-20, 20)]))
        toes = c([0, 16, 7200, 302400, 604784, 345600, rng.randrange(0, 37800) * 16])
        words = [c([0, 0, 2]), c([5153, 5154, 5440, 5190]), *shape, *E, c([0, 0, 0, 1, -1]), *node, *inc, *peri, *du, *di, c("scb"), *kap, dt, dtoc, spin, tilt,
                 *af, rng.randint(1030, 2400), toes, den(pos), Dv]
        return "kep " + ints(words)

    def kin(self):
        r = self.rng.randint
        big = self.rng.choice([1, 1, 0])
        return "kin %d " % self.rng.choice([0, 2]) + ints(
            [r(5100000, 5500000), self.rng.choice([0, r(0, 100), r(0, 30000), r(0, 400000)]), r(-3141592, 3141592), r(-3141592, 3141592), r(0, 3141592), r(-3141592, 3141592),
             r(-10000, 10000), r(-10000, 10000), r(-10000, 10000), big * r(-15000, 15000), big * r(-15000, 15000), big * r(-500, 500), big * r(-500, 500),
             big * r(-5000, 5000), big * r(-5000, 5000), r(-500000, 500000), r(-100000, 100000), r(-50, 50),
             r(1030, 2400), r(0, 37799) * 16, r(-7190000, 7190000), r(-7200, 7200)])

    def glo(self, k, pushed=False, clock=True):
        rng = self.rng
        r = rng.randint
        # near circular at about the altitude of the constellation, in coordinates that turn with the earth
        u = [rng.gauss(0, 1) for _ in range(3)]
        v = [rng.gauss(0, 1) for _ in range(3)]
        nu = sum(x * x for x in u) ** .5
        u = [x / nu for x in u]
        d = sum(x * y for x, y in zip(u, v))
        v = [y - d * x for x, y in zip(u, v)]
        nv = sum(x * x for x in v) ** .5
        R, V = rng.uniform(2.45e7, 2.65e7), rng.uniform(3800, 4050)
        p = [round(R * x) for x in u]
        w = 7.292115e-5
        vel = [V * x / nv for x in v]
        vel = [vel[0] + w * p[1], vel[1] - w * p[0], vel[2]]
        acc = [r(-9, 9) * 931, r(-9, 9) * 931, r(-9, 9) * 931] if pushed else [0, 0, rng.choice([0, 931, -1863])]
        return "glo %d %s %s %s %d %d %d" % (k, ints(p), ints([round(x * 1000) for x in vel]), ints(acc), r(10 ** 9, 2 * 10 ** 9),
                                             r(-10 ** 9, 10 ** 9) if clock else 0, r(-9000, 9000) if clock else 0)

    def go(self, k, start="start", age="p"):
        rng = self.rng
        ms = {"0": 0, "p": rng.choice([1000, 30000, 60000, 90000]), "pp": rng.choice([120000, 600000, 900000, 1800000]), "m": -rng.choice([30000, 60000, 61000, 900000]),
              "frac": rng.choice([1, 500, -250, 59999, 60001, 123456, -899999])}[age]
        return "go %d %s %d" % (k, start, ms)


def ints(v):
    return " ".join(map(str, v))


def run(ctx):
    ctx.assumptions = ["eccentricities, anomalies, orientations and corrections with rational geometry; eccentricity below one half",
                       "rates under harmonic corrections, and the rate of the clock, are compared with differences of the states",
                       "numerically propagated states within half an hour, to 4 mm and 10 micrometres per second",
                       "the drift may or may not contain the rate of the periodic relativistic effect",
                       "the constants are those of the GPS and Galileo interface documents and, for GLONASS, those of its own"]
    rng = ctx.rng
    ctx.model_check("OrbitMC.tla", ctx.pick("OrbitMC.cfg", "OrbitMC6.cfg"))
    exe = vlib.build("orbits", "orbits.cpp", ["common/satellite/satellite_state.cxx", "common/utctime.cxx", "common/print.cxx"],
                     flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"], libs=["-fsanitize=address,undefined"])
    gen, _ = vlib.tlc_generate("OrbitGen.tla", "OrbitGen.cfg")
    gen = sorted(set(map(tuple, gen)))
    ctx.notes["behaviours_generated"] = len(gen)
    gen = rng.sample(gen, min(len(gen), ctx.pick(4000, len(gen))))
    g = Gen(rng)
    segs = []
    for b in gen:
        seg = ["new", g.glo(1, rng.random() < .5)]
        two = False
        if any(b[p] in ("go", "twin") and (b[p] == "twin" or b[p + 1] == "2") for p in range(1, len(b), 4)) and rng.random() < .7:
            seg.append("twin 2 1 %s" % rng.choice(["quarter", "half", "mirror"]))
            two = True
        for p in range(1, len(b), 4):
            op, x, y, z = b[p:p + 4]
            if op == "kep":
                seg.append(g.kep(x, y, z))
            elif op == "kin":
                seg.append(g.kin())
            elif op == "glo":
                k = rng.choice([1, 3])
                seg.append(g.glo(k, x == "pushed", y == "clock"))
                if k == 1 and two:
                    seg.append("twin 2 1 quarter")
                seg.append(g.go(k, "start", rng.choice(["0", "p", "m"])))
            elif op == "twin":
                seg.append("twin 2 1 %s" % x)
                two = True
                t = g.go(1, "start", rng.choice(["p", "m", "frac"]))
                seg += [t, t.replace("go 1", "go 2")]
            elif op == "go":
                if x == "2" and not two:
                    seg.append(g.glo(2))
                    two = True
                seg.append(g.go(int(x), y, z))
        segs.append(seg)
    for _ in range(ctx.pick(600, 6000)):
        seg = ["new", g.glo(1, rng.random() < .5, rng.random() < .7), "twin 2 1 %s" % rng.choice(["quarter", "half", "mirror"]), g.glo(3, rng.random() < .5)]
        times = [rng.choice([60000, 120000, 600000, -60000, 90000, 1000, -1500, 0]) for _ in range(3)]
        for _ in range(rng.choice([4, 10])):
            x = rng.random()
            if x < .5:
                seg.append("go %d %s %d" % (rng.randint(1, 3), rng.choice(["start", "last"]), rng.choice(times)))
            elif x < .6:
                seg.append(g.kin())
            else:
                seg.append(g.kep("any", rng.choice(["plain", "plain", "u", "r", "i", "all"]), rng.choice(["now", "early", "late", "edge", "stale"])))
        segs.append(seg)

    def corrupt(t, r):
        es = [e for e in t if e.get("pos") or (e["op"] == "kin")]
        if not es:
            return None
        e = r.choice(es)
        v = e.get("pos") or e["vel"]
        v[r.randrange(3)] += 5
        return t
    ctx.required_ops = ["kep", "kin", "glo", "twin", "go"]
    ctx.conform("OrbitTrace.tla", "Trace.cfg", exe, segs, self_test=corrupt)
