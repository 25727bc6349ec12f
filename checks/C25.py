"""C25: inertial preintegration keeps exactly the samples of its interval, however it is split."""
import vlib


def run(ctx):
    ctx.assumptions = ["motion along and about one axis, so that integers decide the accumulated increments",
                       "an instant 50 to 100 microseconds from a sample may be refused as a place to split"]
    rng = ctx.rng
    ctx.model_check("ImuMC.tla", ctx.pick("ImuMC.cfg", "ImuMC5.cfg"))
    exe = vlib.build("imu", "imu.cpp", ["models/imu_model.cxx", "models/imu_state.cxx", "common/quantized_time.cxx", "common/utctime.cxx",
                                        "common/check.cxx", "common/print.cxx"], flags=["-fsanitize=address"], libs=["-fsanitize=address"])
    gen, _ = vlib.tlc_generate("ImuGen.tla", ctx.pick("ImuGen.cfg", "ImuGen7.cfg"))
    gen = sorted(set(map(tuple, gen)))
    ctx.notes["behaviours_generated"] = len(gen)
    gen = rng.sample(gen, min(len(gen), ctx.pick(3000, 30000)))
    segs = []

    class Hist:
        """what the workload knows of the intervals (which instants are samples)"""
        def __init__(self):
            self.parts, self.t = [[0]], 0
            inp = rng.random()
            # inputs in steps that interpolate exactly
            self.val = (lambda: 60 * rng.randint(-15, 20)) if inp < .7 else (lambda: rng.choice([0, 600]))
            self.rate = (lambda: 60 * rng.randint(-4, 4)) if inp < .85 else (lambda: 0)
            self.cmds = ["new 0 %d %d %d %d %d %d" % (self.val(), self.rate(), rng.choice([0, 0, 6, -30]), rng.choice([0, 0, -9]),
                                                      rng.choice([1, 2, 3]), rng.choice([1, 2]))]

        def sample(self, gap):
            ms = {"short": [1, 2, 3], "long": [4, 5, 6, 10, 12]}[gap]
            h = self.parts[-1]
            # after a cut the rest of the interval keeps its last sample
            t = h[-1] + 1000 * rng.choice(ms)
            t -= t % 1000
            if t > 145000 or t <= h[-1]:
                return
            h.append(t)
            self.cmds.append("sample %d %d %d %d" % (len(self.parts), t, self.val(), self.rate()))

        def cut(self, k, place):
            h = self.parts[k - 1]
            if place == "between":
                c = [x for i in range(1, len(h)) for x in range(h[i - 1] - h[i - 1] % 1000 + 1000, h[i], 1000) if x - h[i - 1] > 100 and h[i] - x > 100]
                c = c or h[1:-1]
            else:
                c = h[1:-1]
            if not c:
                return
            t = rng.choice(c)
            if place == "beside":
                t += rng.choice([-1, 1]) * rng.choice([5, 20, 40, 70, 90, 200])
            if t <= h[0] + 50 or t >= h[-1] - 50:
                return
            self.cmds.append("cut %d %d" % (k, t))
            on = [x for x in h if abs(x - t) <= 50]
            i = max(i for i, x in enumerate(h) if x - t <= 50)
            self.parts[k - 1:k] = [h[:i + 1] + ([] if on else [t]), [t] + h[i + 1:]]

        def look(self, k=None):
            q = lambda: rng.choice([(1, 0, 0, 0, 1), (0, 1, 0, 0, 1), (1, 1, 1, 1, 2), (1, -1, 1, 1, 2), (2, 1, 2, 0, 3), (2, 0, -2, 1, 3), (4, 2, 2, 1, 5), (4, -1, 2, -2, 5), (24, 0, 7, 0, 25), (40, 9, 0, 0, 41), (84, 0, 0, -13, 85)])
            v = lambda m, n=3: [rng.randint(-m, m) for _ in range(n)]
            self.cmds.append("look %d %s" % (k or rng.randint(1, len(self.parts)), " ".join(map(str, [
                *q(), *v(40), *v(9), *q(), *v(9), *v(9), *([0] * 6 if rng.random() < .4 else v(50, 6)), rng.choice([0, 31, 31, rng.randrange(32)]), *v(9, 6)]))))

        def end(self, k=None):
            self.cmds.append("end %d %d" % (k or rng.randint(1, len(self.parts)), rng.randint(-60, 60)))

    for b in gen:
        h = Hist()
        for _ in range(rng.choice([0, 1, 3])):
            h.sample("long")
        i = 1
        while i < len(b):
            if b[i] == "sample":
                h.sample(b[i + 1])
                i += 2
            else:
                h.cut(min(int(b[i + 1]), len(h.parts)), b[i + 2])
                i += 3
        for k in range(len(h.parts)):
            h.end(k + 1)
            if rng.random() < .3:
                h.look(k + 1)
        segs.append(h.cmds)
    for _ in range(ctx.pick(600, 6000)):
        h = Hist()
        for _ in range(rng.choice([8, 16, 30])):
            r = rng.random()
            if r < .6:
                h.sample(rng.choice(["short", "long"]))
            elif r < .85:
                h.cut(rng.randint(1, len(h.parts)), rng.choice(["on", "between", "between", "between", "beside"]))
            elif r < .91:
                h.end()
            elif r < .97:
                h.look()
            elif r < .985:
                # does not advance time, or not enough
                h.cmds.append("sample %d %d %d 0" % (len(h.parts), h.parts[-1][-1] + rng.choice([0, -1000, 50, 90]), h.val()))
                break
            else:
                p = rng.choice(h.parts)
                h.cmds.append("cut %d %d" % (h.parts.index(p) + 1, rng.choice([p[0], p[-1], p[0] - 2000, p[-1] + 500, p[0] + 30])))
                break
        segs.append(h.cmds)

    def corrupt(t, r):
        es = [(e, m) for e in t for m in ("it", "left", "right") if m in e]
        if not es:
            return None
        e, m = r.choice(es)
        f = r.choice(["n", "t0", "tf", "b2"])
        e[m][f] += 9000 if f == "b2" else 1
        return t
    ctx.required_ops = ["sampled", "cutted", "end", "look", "crash"]
    ctx.conform("ImuTrace.tla", "Trace.cfg", exe, segs, self_test=corrupt)
