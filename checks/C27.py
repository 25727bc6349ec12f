"""C27: rotations and rigid motions compose, act, take apart and rebuild as motions do."""
from fractions import Fraction as F
from math import gcd, isqrt, lcm
import vlib

# integer quaternions of integer length
SHAPES = [((1, 0, 0, 0), 1), ((1, 1, 1, 1), 2), ((2, 2, 1, 0), 3), ((4, 3, 0, 0), 5), ((1, 2, 2, 4), 5), ((2, 3, 6, 0), 7), ((4, 4, 4, 1), 7), ((2, 4, 5, 6), 9)]
AXES = [((1, 0, 0), 1, [(0, 1, 0), (0, 3, 4)]), ((0, 1, 0), 1, [(0, 0, 1), (4, 0, -3)]), ((0, 0, 1), 1, [(1, 0, 0), (2, -1, 0)]),
        ((1, 2, 2), 3, [(2, 1, -2), (0, 1, -1), (2, -2, 1)]), ((2, -1, 2), 3, [(1, 2, 0), (2, 2, -1)]), ((3, 4, 0), 5, [(4, -3, 0), (0, 0, 2)]),
        ((2, 3, 6), 7, [(3, -2, 0), (6, 2, -3)])]
HALVES = [(1, 0, 1), (0, 1, 1), (4, 3, 5), (3, 4, 5), (12, 5, 13), (5, 12, 13), (7, 24, 25), (40, 9, 41), (24, 7, 25)]


def qmul(a, b):
    w, x, y, z = a
    p, q, r, s = b
    return (w * p - x * q - y * r - z * s, w * q + x * p + y * s - z * r, w * r - x * s + y * p + z * q, w * s + x * r - y * q + z * p)


class Rot:
    def __init__(self, q, n):
        g = n
        for x in q:
            g = gcd(g, x)
        self.q, self.n = tuple(x // g for x in q), n // g

    def __mul__(self, o):
        return Rot(qmul(self.q, o.q), self.n * o.n)

    def inv(self):
        w, x, y, z = self.q
        return Rot((w, -x, -y, -z), self.n)

    def turn(self, v):
        o = qmul(qmul(self.q, (0, *v)), self.inv().q)
        return tuple(F(x) / self.n ** 2 for x in o[1:])


class Mot:
    def __init__(self, r, t):
        self.r, self.t = r, tuple(map(F, t))

    def __mul__(self, o):
        return Mot(self.r * o.r, [a + b for a, b in zip(self.t, self.r.turn(o.t))])

    def inv(self):
        return Mot(self.r.inv(), [-x for x in self.r.inv().turn(self.t)])

    def d(self):
        return lcm(*[x.denominator for x in self.t])

    def act(self, p):
        return tuple(a + b for a, b in zip(self.t, self.r.turn(p)))


def den(v):
    return lcm(*[F(x).denominator for x in v])


def ints(v):
    return " ".join(map(str, v))


class Hist:
    """knows the registers, to ask for results in units in which they are whole"""
    def __init__(self, rng):
        self.rng, self.cmds = rng, ["new"]
        self.r = {i: Rot((1, 0, 0, 0), 1) for i in (1, 2, 3)}
        self.m = {i: Mot(Rot((1, 0, 0, 0), 1), (0, 0, 0)) for i in (1, 2, 3)}

    def src(self, i):
        return self.m[3].r if i == 4 else self.r[i]

    def shape(self):
        q, n = self.rng.choice(SHAPES)
        q = list(q)
        self.rng.shuffle(q)
        return [x * self.rng.choice([1, -1]) for x in q], n

    def rotOk(self, r):
        return r.n <= 2000

    def motOk(self, m):
        # what the specification's numbers can hold
        return m.r.n <= 300 and m.d() <= 8000 and all(abs(x) < 60 for x in m.t) and m.r.n ** 2 * m.d() * 180 < 2 ** 30 and 4 * m.r.n * m.d() * 60 < 2 ** 30

    def half(self, neg=True):
        a, b, h = self.rng.choice(HALVES)
        return a * self.rng.choice([1, 1, -1] if neg else [1]), b * self.rng.choice([1, -1]), h

    def about(self, ax, m, a, b, h):
        return Rot((a * m, *[b * x for x in ax]), h * m)

    def put(self, cmd, k, r):
        if not self.rotOk(r):
            return False
        self.r[k] = r
        self.cmds.append("%s %d" % (cmd, r.n))
        return True

    def putm(self, cmd, k, m):
        if not self.motOk(m):
            return False
        self.m[k] = m
        self.cmds.append("%s %d %d" % (cmd, m.r.n, m.d()))
        return True

    def screw(self, neg=True, hmax=99):
        rng = self.rng
        ax, m, us = rng.choice(AXES)
        while True:
            a, b, h = self.half(neg)
            if h <= hmax:
                break
        u = rng.choice(us)
        ud = rng.choice([1, 1, 2])
        f = rng.choice([1, 1, 1, -1, 0, 2])
        u = tuple(f * x for x in u)
        c = rng.choice([0, 0, 1, -2, 3])
        k = [F(x, m) for x in ax]
        uu = [F(x, ud) for x in u]
        cr = (k[1] * uu[2] - k[2] * uu[1], k[2] * uu[0] - k[0] * uu[2], k[0] * uu[1] - k[1] * uu[0])
        t = [c * k[i] + F(2 * a * b, h * h) * uu[i] + F(2 * b * b, h * h) * cr[i] for i in range(3)]
        return ("%s %d %d %d %d %d %s %d" % (ints(ax), m, a, b, h, c, ints(u), ud), Mot(self.about(ax, m, a, b, h), t), (ax, m, a, b, h, u, ud))

    def nearHalf(self, s):
        """the same screw, turned by nearly half a turn (an angle whose half has a huge tangent)"""
        f = s.split()
        f[4], f[5] = "1", str(self.rng.choice([1, -1]) * self.rng.choice([30, 1000, 10 ** 4, 3 * 10 ** 4, 10 ** 5, 10 ** 6, 10 ** 7, 10 ** 9]))
        return " ".join(f)

    def step(self, op, i=0, j=0, k=0):
        rng = self.rng
        c = rng.choice
        if op == "rset":
            q, n = self.shape()
            return self.put("rset %d %s %s %d" % (i, c(["ctor", "arr", "fields", "map", "mat", "so3", "cast", "data"]), ints(q), n), i, Rot(q, n))
        if op == "raxis":
            ax, m, _ = c(AXES)
            a, b, h = self.half()
            return self.put("raxis %d %s %s %d %d %d %d %d" % (i, c(["aa", "aa", "exp", "exp", "expL", "expR", "so3", "so3j", "so3aa"]), ints(ax), m, a, b, h,
                                                              c([0, 0, 0, 1, 3, 8, 9, 10, 11, 12, 18, 20])), i, self.about(ax, m, a, b, h))
        if op == "reuler":
            e = [c([(1, 0, 1), (0, 1, 1), (1, 0, 1), (4, 3, 5), (3, -4, 5), (12, 5, 13), (4, -3, 5)]) for _ in range(3)]
            x = Rot((1, 0, 0, 0), 1)
            for n, ax in zip((2, 1, 0), ((0, 0, 1), (0, 1, 0), (1, 0, 0))):
                x = x * self.about(ax, 1, *e[n])
            return self.put("reuler %d %s %s" % (i, c(["fe", "ctor"]), " ".join(map(ints, e))), i, x)
        if op == "rtwo":
            u, un = c([((1, 0, 0), 1), ((0, 0, -1), 1), ((1, 2, 2), 3), ((2, -1, 2), 3), ((3, 4, 0), 5), ((2, 3, 6), 7), ((-6, 2, 3), 7), ((1, 4, 8), 9)])
            how = c(["q", "q", "so3"])
            if rng.random() < .2:
                self.r[i] = Rot((1, 0, 0, 0), 1)
                self.cmds.append("rflip %d %s %s %d %d" % (i, how, ints(u), un, un))
                return True
            # turned about a perpendicular axis, or hardly at all
            for _ in range(50):
                q, n = self.shape()
                if rng.random() < .15:
                    q, n = [1, 0, 0, 0], 1
                q[0] = abs(q[0])
                if q[0] and sum(x * y for x, y in zip(q[1:], u)) == 0:
                    break
            else:
                return False
            v = Rot(q, n).turn(tuple(F(x, un) for x in u))
            vn = den(v)
            vi = [int(x * vn) for x in v]
            s2 = 2 * un * vn * (un * vn + sum(x * y for x, y in zip(u, vi)))
            s = isqrt(s2)
            if s * s != s2 or s == 0:
                return False
            cr = [u[1] * vi[2] - u[2] * vi[1], u[2] * vi[0] - u[0] * vi[2], u[0] * vi[1] - u[1] * vi[0]]
            return self.put("rtwo %d %s %s %d %s %d %d" % (i, how, ints(u), un, ints(vi), vn, s), i,
                            Rot((un * vn + sum(x * y for x, y in zip(u, vi)), *[-x for x in cr]), s))
        if op == "rmul":
            return self.put("rmul %d %d %d %s" % (i, j, k, c(["star", "star", "otimes", "so3"])), k, self.src(i) * self.src(j))
        if op == "rmuleq":
            return self.put("rmuleq %d %d" % (i, j), i, self.r[i] * self.src(j))
        if op == "rinv":
            return self.put("rinv %d %d %s" % (i, k, c(["q", "q", "so3", "T"])), k, self.src(i).inv())
        if op == "rinvert":
            return self.put("rinvert %d" % i, i, self.r[i].inv())
        if op == "rcopy":
            return self.put("rcopy %d %d %s" % (i, k, c(["assign", "ctor", "copy", "elems", "so3", "mat", "rect", "norm", "lin"])), k, self.src(i))
        if op == "rlog":
            return self.put("rlog %d %d %s %d" % (i, k, c(["q", "q", "L", "R", "so3", "so3j"]), c([0, 0, 1])), k, self.src(i))
        if op == "reul":
            w, x, y, z = self.src(i).q
            if abs(2 * (w * y - x * z)) > .98 * self.src(i).n ** 2:
                return False
            return self.put("reul %d %d %s" % (i, k, c(["e", "rpy"])), k, self.src(i))
        if op == "mset":
            q, n = self.shape()
            t, d = [rng.randint(-9, 9) for _ in range(3)], c([1, 1, 2, 3, 4])
            if rng.random() < .2:
                t = [0, 0, 0]
            return self.putm("mset %d %s %s %d %s %d" % (i, c(["rt", "rt", "eight", "map", "pair", "set", "parts", "arr", "vec", "se3", "index"]),
                                                         ints(q), n, ints(t), d), i, Mot(Rot(q, n), [F(x, d) for x in t]))
        if op == "mexp":
            s, m, _ = self.screw()
            return self.putm("mexp %d %s %s %d" % (i, c(["dq", "dq", "L", "R", "se3", "se3j"]), s, c([0, 0, 0, 1, 4, 8, 9, 10, 11, 16, 18])), i, m)
        if op == "mmul":
            return self.putm("mmul %d %d %d %s" % (i, j, k, c(["star", "star", "otimes", "se3", "mat"])), k, self.m[i] * self.m[j])
        if op == "minv":
            return self.putm("minv %d %d %s" % (i, k, c(["dq", "dq", "se3"])), k, self.m[i].inv())
        if op == "mcopy":
            return self.putm("mcopy %d %d %s" % (i, k, c(["assign", "ctor", "rt", "pair", "mat", "rect", "mem"])), k, self.m[i])
        if op == "mlog":
            return self.putm("mlog %d %d %s %d" % (i, k, c(["dq", "dq", "L", "R", "se3", "se3j"]), c([0, 0, 1])), k, self.m[i])
        raise AssertionError(op)

    def watch(self):
        rng = self.rng
        c = rng.choice
        r = rng.random()
        i = rng.randint(1, 4)
        if r < .15:
            self.cmds.append("rshow %d %d" % (i, self.src(i).n))
        elif r < .4:
            if self.src(i).n <= 700:
                d, n = c("ap"), rng.randint(1, 3)
                how = c(["one", "one", "cols", "two", "mat", "ad", "so3", "so3ad", "row", "pure", "seg"])
                n = 2 if how == "two" else n
                self.cmds.append("ract %d %s %s %d %d %s" % (i, d, how, self.src(i).n ** 2, n, " ".join(ints([rng.randint(-9, 9) for _ in range(3)]) for _ in range(n))))
        elif r < .45:
            self.cmds.append("rparam %d %d" % (i, 2 * self.src(i).n))
        elif r < .5:
            _, _, (ax, m, a, b, h, u, ud) = self.screw(neg=False)
            # the derivative of the logarithm is sought up to half a turn
            if b and a:
                self.cmds.append("rjac %s %s %d %d %d %d %s %d %d" % (c("LRS"), ints(ax), m, a, b, h, ints(u), ud, h * h * m * ud))
        elif r < .55:
            s, _, (ax, m, a, b, h, u, ud) = self.screw(neg=False)
            if rng.random() < .2:
                self.cmds.append("lg 1 %s %s 0 1 1" % (c(["dq", "L", "R", "se3", "se3j", "q", "qL", "qR", "so3", "so3j"]), self.nearHalf(s)))
            elif b and a:
                self.cmds.append("lg 1 %s %s %d 1 1" % (c(["dq", "dq", "L", "R", "se3", "se3j", "q", "qL", "qR", "so3", "so3j"]), s, c([0, 0, 0, 1, 5, 8, 9, 10, 11, 16, 20])))
        elif r < .6:
            s, _, (ax, m, a, b, h, u, ud) = self.screw(neg=False, hmax=25)
            if rng.random() < .25:
                self.cmds.append("mjac 1 %s %s 0 1 1" % (c(["dq", "se3", "so3", "q"]), self.nearHalf(s)))
            elif b and a:
                self.cmds.append("mjac 1 %s %s %d 1 1" % (c(["dq", "dq", "se3", "so3", "q"]), s, c([0, 0, 0, 1, 2, 7, 9, 10])))
        else:
            i = rng.randint(1, 3)
            m = self.m[i]
            if r < .63:
                self.cmds.append("home %d %s" % (i, c(["so3", "so3q", "rect", "q", "se3", "dq"])))
            elif r < .7:
                self.cmds.append("mshow %d %d %d" % (i, m.r.n, m.d()))
            elif r < .93:
                d, n, vd = c("ap"), rng.randint(1, 3), c([1, 1, 2, 3])
                vs = [[rng.randint(-9, 9) for _ in range(3)] for _ in range(n)]
                mm = m if d == "a" else m.inv()
                outs = [mm.act([F(x, vd) for x in v]) for v in vs]
                D = lcm(*[den(o) for o in outs])
                # intermediate numbers of the specification
                big = m.r.n ** 2 * lcm(m.d(), vd) * (1 if d == "p" else 1) * 300
                if big < 2 ** 30 and D * 100 < 2 ** 30 and lcm(m.d(), m.r.n ** 2 * vd) * 100 < 2 ** 30:
                    self.cmds.append("mact %d %s %s %d %d %d %s" % (i, d, c(["one", "one", "cols", "se3", "se3op", "inv", "rot", "R"]), vd, D, n, " ".join(map(ints, vs))))
            else:
                D = m.d() * m.r.n ** 2
                if D * 2000 < 2 ** 30 and m.r.n ** 4 * m.d() * 900 < 2 ** 30:
                    self.cmds.append("mad %d %s %s %s %d" % (i, c(["dq", "se3"]), ints([rng.randint(-5, 5) for _ in range(3)]), ints([rng.randint(-5, 5) for _ in range(3)]), D))


def run(ctx):
    ctx.assumptions = ["rotations with rational elements, angles with rational sine and cosine (and their halvings down to a millionth of a turn)",
                       "Euler angles are taken from rotations whose pitch is below about 80 degrees",
                       "Jacobians are compared with exact values for rotations, with differences of the maps for motions"]
    rng = ctx.rng
    ctx.model_check("MotionMC.tla", ctx.pick("MotionMC.cfg", "MotionMC5.cfg"))
    exe = vlib.build("motions", "motions.cpp", ["common/check.cxx", "common/print.cxx"], flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"],
                     libs=["-fsanitize=address,undefined"])
    gen, _ = vlib.tlc_generate("MotionGen.tla", ctx.pick("MotionGen.cfg", "MotionGen.cfg"))
    gen = sorted(set(map(tuple, gen)))
    ctx.notes["behaviours_generated"] = len(gen)
    gen = rng.sample(gen, min(len(gen), ctx.pick(3000, 20000)))
    segs = []
    for b in gen:
        h = Hist(rng)
        # something to compose
        for i in (1, 2, 3):
            h.step(rng.choice(["rset", "raxis", "rtwo"]), i)
            h.step(rng.choice(["mset", "mset", "mexp"]), i)
        for p in range(1, len(b), 4):
            op, i, j, k = b[p], int(b[p + 1]), int(b[p + 2]), int(b[p + 3])
            if op in ("rset", "raxis", "reuler", "rtwo", "rinvert", "mset", "mexp"):
                h.step(op, i)
            else:
                h.step(op, i, j, k)
            h.watch()
        h.watch()
        segs.append(h.cmds)
    for _ in range(ctx.pick(1500, 15000)):
        h = Hist(rng)
        for _ in range(rng.choice([6, 12, 25])):
            x = rng.random()
            i, j, k = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 3)
            if x < .3:
                h.step(rng.choice(["rset", "raxis", "raxis", "reuler", "rtwo", "mset", "mexp", "mexp"]), k)
            elif x < .55:
                op = rng.choice(["rmul", "rmuleq", "rinv", "rinvert", "rcopy", "rlog", "rlog", "reul"])
                h.step(op, min(i, 3) if op in ("rmuleq", "rinvert") else i, j, k)
            elif x < .75:
                h.step(rng.choice(["mmul", "mmul", "minv", "mcopy", "mlog", "mlog"]), min(i, 3), min(j, 3), k)
            else:
                h.watch()
        segs.append(h.cmds)

    def corrupt(t, r):
        es = [e for e in t if "q" in e or "outs" in e]
        if not es:
            return None
        e = r.choice(es)
        v = r.choice([e[x] for x in ("q", "t", "dual") if x in e] or e["outs"])
        v[r.randrange(len(v))] += 1
        return t
    ctx.required_ops = ["rset", "raxis", "reuler", "rtwo", "rflip", "rmul", "rmuleq", "rinv", "rinvert", "rcopy", "rlog", "reul", "rshow", "ract", "rparam", "rjac",
                        "mset", "mexp", "mmul", "minv", "mcopy", "mlog", "mshow", "mact", "mad", "lg", "mjac", "home"]
    ctx.conform("MotionTrace.tla", "Trace.cfg", exe, segs, self_test=corrupt)
