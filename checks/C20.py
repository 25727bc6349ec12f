"""C20: generated filter code equals the dense Kalman filter of its model."""
from fractions import Fraction as F
from math import lcm
import concurrent.futures as cf
import os
import subprocess
import yaml
import vlib
import kalman_models as K

PRIMES = [32749, 32719, 32717, 32713, 32707, 32693, 32687, 32653]
CHI = {50: [.45, 1.39, 2.37, 3.36, 4.35, 5.35, 6.35], 90: [2.71, 4.61, 6.25, 7.78, 9.24, 10.64, 12.02],
       95: [3.84, 5.99, 7.81, 9.49, 11.07, 12.59, 14.07], 99: [6.63, 9.21, 11.34, 13.28, 15.09, 16.81, 18.48]}


def cfg(name, states, inputs, dyn, meas):
    inc = ["common/defs.h", "Eigen/Dense"] + sorted({K.INC[S.base] for S in [K.S(k, v) for k, v in
                                      list(states.items()) + [(k, m["type"]) for k, m in meas.items()]] if S.man})
    return dict(namespaces=["mc", "kal", name], includes=inc, state_name="FilterState", error_state_name="FilterError",
                input_name="FilterInput", state_composition=states, input=inputs, dynamics=dyn, measurements=meas)


def M(type, states, prob=1.0, disabled=None):
    m = dict(type=type, gating_probability=prob, states=states)
    if disabled is not None:
        m["disabled"] = disabled
    return m


def fixed_models():
    """models chosen for their structure"""
    yield "chain", cfg("chain", dict(pos="Vec3", vel="Vec3", acc="Vec3"), dict(jerk="Vec3"),
        dict(pos=[["vel"], []], vel=[["acc", "vel"], ["jerk"]], acc=[["acc"], ["jerk"]]),
        dict(position=M("Vec3", ["pos"], .95), speed=M("Vec2", ["vel", "acc"]), off=M("Vec2", ["pos"], 1.0, True)))
    yield "dense", cfg("dense", dict(a="Vec2", b="Vec3"), dict(u="Vec2", w_in="Vec3"),
        dict(a=[["a", "b"], ["u", "w_in"]], b=[["b", "a"], ["w_in", "u"]]),
        dict(both=M("Vec4", ["b", "a"], .99), second=M("Vec3", ["b"], .5), first=M("Vec2", ["a"], 1.0, False)))
    yield "vary", cfg("vary", dict(body="Vec2", lmk_one="Var<Vec2, 3>", bias_x="Vec3", lmkTwo="Var<Vec1, 4>"), dict(u="Vec2"),
        dict(body=[["bias_x", "lmk_one"], ["u"]], lmk_one=[["lmk_one", "lmkTwo", "body"], ["u"]], bias_x=[[], []], lmkTwo=[["lmkTwo"], []]),
        dict(seen=M("Var<Vec2, 3>", ["lmk_one", "body"]), sees_all=M("Vec3", ["lmkTwo", "lmk_one", "bias_x", "body"], .95),
             seen_too=M("Var<Vec2, 3>", ["lmk_one"]), single=M("Var<Vec1, 4>", ["lmkTwo"]), muted=M("Var<Vec3, 2>", ["body", "lmkTwo"], 1.0, True)))
    yield "turn", cfg("turn", dict(rot="Quat", rate="Vec3", marks="Var<Quat, 2>"), dict(gyro="Vec3"),
        dict(rot=[["rot", "rate"], ["gyro"]], rate=[[], ["gyro"]], marks=[["rate", "marks"], []]),
        dict(att=M("Quat", ["rot"], .9), rel=M("Vec3", ["rot", "marks"])))


def random_model(rng, i):
    names = ["alpha", "beta_x", "gamma", "d_2", "epsZ", "zeta"]
    rng.shuffle(names)
    st = {}
    for k in range(rng.choice([2, 3, 3, 4])):
        r = rng.random()
        st[names[k]] = ("Vec%d" % rng.choice([2, 2, 3, 4]) if r < .6 else rng.choice(["Var<Vec1, 3>", "Var<Vec2, 2>", "Var<Vec3, 2>"])
                        if r < .88 else "Quat")
    if all(v.startswith("Var") for v in st.values()):
        st[list(st)[0]] = "Vec2"
    inp = {k: "Vec%d" % rng.choice([2, 3]) for k in ["u_a", "ub"][:rng.choice([1, 1, 2])]}
    dens = rng.choice([.3, .5, .8])
    pick = lambda xs: rng.sample(xs, sum(rng.random() < dens for _ in xs))
    dyn = {s: [pick(list(st)), pick(list(inp))] for s in rng.sample(list(st), len(st))}
    # the generated code has at least one entry in each Jacobian
    if not any(v[0] for v in dyn.values()):
        dyn[list(st)[0]][0] = [list(st)[-1]]
    if not any(v[1] for v in dyn.values()):
        dyn[list(st)[-1]][1] = [list(inp)[0]]
    meas = {}
    for k in range(3):
        t = rng.choice(["Vec2", "Vec3", "Vec4", "Var<Vec1, 3>", "Var<Vec2, 2>", "Var<Vec2, 3>"])
        ss = pick(list(st)) or [rng.choice(list(st))]
        meas["m_%s" % "abc"[k]] = M(t, ss, rng.choice([1.0, 1.0, .5, .9, .95, .99]), rng.random() < .2)
    return "rand%d" % i, cfg("rand%d" % i, st, inp, dyn, meas)


def matmul(a, b):
    return [[sum(x * y for x, y in zip(r, c) if x and y) for c in zip(*b)] for r in a]


def solve(S, B):
    """S X = B exactly"""
    n = len(S)
    a = [[F(x) for x in S[i]] + [F(x) for x in B[i]] for i in range(n)]
    for c in range(n):
        p = next(i for i in range(c, n) if a[i][c] != 0)
        a[c], a[p] = a[p], a[c]
        v = 1 / a[c][c]
        a[c] = [x * v for x in a[c]]
        for i in range(n):
            if i != c and a[i][c]:
                f = a[i][c]
                a[i] = [x - f * y for x, y in zip(a[i], a[c])]
    return [r[n:] for r in a]


def covariance(rng, n, dens):
    L = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            if rng.random() < dens:
                L[i][j] = rng.choice([-1, 1, 1, 2])
        L[i][i] = rng.choice([1, 1, 2, 3])
    return matmul(L, [list(c) for c in zip(*L)])


def masked(rng, rows, cols, decl, dens):
    """integer matrix with entries only in declared blocks"""
    o = [[0] * sum(cols) for _ in range(sum(rows))]
    ro = [sum(rows[:i]) for i in range(len(rows))]
    co = [sum(cols[:i]) for i in range(len(cols))]
    for i, j in decl:
        for a in range(rows[i]):
            for b in range(cols[j]):
                if rng.random() < dens:
                    o[ro[i] + a][co[j] + b] = rng.choice([-3, -2, -1, 1, 2, 3])
    return o


def flat(m):
    return [x for r in m for x in r]


def ints(xs):
    return " ".join(map(str, xs))


def counts(rng, m, big=False):
    return [s.max if big else rng.choice([0, 0, 1, 1, 2, min(s.max, 4)]) if s.max > 1 else rng.randint(0, s.max)
            for s in m.states if s.var]


def q_base(rng, ss, lo=0):
    return [rng.randint(lo, 5) for s in ss for _ in range(s.d)]


def initial(rng, m):
    return "initial %s %s %s" % (ints(counts(rng, m)), ints(q_base(rng, m.states)), ints(q_base(rng, m.inputs)))


def predict(rng, m, big=False):
    c = counts(rng, m, big)
    d = m.dims(c)
    n = sum(d)
    du = [s.d for s in m.inputs]
    dens = rng.choice([.1, .3, .6])
    P = covariance(rng, n, dens if n < 30 else .1)
    A = masked(rng, d, d, m.adecl, dens)
    B = masked(rng, d, du, m.bdecl, rng.choice([.2, .7]))
    f = []
    for s, k in zip(m.states, d):
        f += [rng.randint(-3, 3) if s.man else rng.randint(-60, 60) for _ in range(k)]
    return "predict %s %d %s" % (ints(c), rng.choice([1, 2, 2, 3, 4]), ints(flat(P) + flat(A) + flat(B) +
        [rng.randint(-9, 9) for _ in range(n)] + f + [rng.randint(-9, 9) for _ in range(sum(du))] +
        q_base(rng, m.states) + q_base(rng, m.inputs)))


def update(rng, m, k, prime, big=False):
    ms = m.meas[k]
    prob = round(ms.prob * 100)
    dof = ms.d * ms.max - 1
    for attempt in range(200):
        c = counts(rng, m, big)
        d = m.dims(c)
        n = sum(d)
        nz = 1 if not ms.var else ms.max if big and attempt < 2 else rng.choice([0, 1, 1, 2, min(3, ms.max)]) if attempt < 150 else 1
        nz = min(nz, ms.max)
        if m.name == "rtk_ekf" and ms.name == "fix_and_hold" and attempt < 100:
            nz = c[0]
        dm = ms.d * nz
        dens = rng.choice([.1, .3, .5]) * (1 if attempt < 20 else .4 if attempt < 80 else .1)
        P = covariance(rng, n, dens if n < 30 else min(dens, .1))
        H = masked(rng, [dm], d, [(0, j) for j in ms.h], max(dens, .15) if n < 30 else .1) if n else []
        r = [rng.randint(1, 6) for _ in range(ms.d)]
        if dm == 0 or n == 0:
            if nz == 0:
                return "update %s %d 0 %s %s 1 %d %d %d" % (ints(c), k, ints(flat(P) + [rng.randint(-9, 9) for _ in range(n)]), ints(r), ms.disabled, prob, dof)
            continue
        T = matmul(P, [list(x) for x in zip(*H)])
        S = matmul(H, T)
        for i in range(dm):
            S[i][i] += r[i % ms.d]
        size = 5 if any(m.states[j].man for j in range(len(d)) if d[j]) else 40
        if prob < 100:
            size = rng.choice([20, 60, 150, 400])
        res = [rng.randint(-size, size) for _ in range(dm)]
        X = solve(S, [[res[i]] + [T[j][i] for j in range(n)] for i in range(dm)])
        D = lcm(*[x.denominator for row in X for x in row])
        g = [row[0] * D for row in X]
        G = [[x * D for x in row[1:]] for row in X]
        # keep what the recorder can represent
        dx = [sum(T[i][a] * g[a] for a in range(dm)) / (64 * D) for i in range(n)]
        top = max(max(abs(x) for x in flat(P)), 64 * max(abs(x) for x in dx) + 64 * 10)
        if D * top > 10 ** 11 or D % prime == 0:
            continue
        o = 0
        ok = True
        for s, w in zip(m.states, d):
            if s.man and any(abs(x) > .4 for x in dx[o:o + w]):
                ok = False
            o += w
        if prob < 100:
            ma = sum(a * b for a, b in zip(res, g)) / F(4096 * D)
            if dof > 7 or abs(float(ma) / CHI[prob][dof - 1] - 1) < .03:
                ok = False
            gated = ma > CHI[prob][dof - 1] if dof <= 7 else False
            if gated and not ms.disabled and rng.random() < .5:
                ok = False
            if not gated and not ok:
                pass
            if sum(abs(a * b) for a, b in zip(res, g)) >= 2 ** 31 or max(abs(x) for x in g) >= 2 ** 31 or D * 100 >= 2 ** 31 or \
                    max(abs(x) for x in CHI[prob]) * 4096 * 100 >= 2 ** 31:
                ok = False
            if gated:
                ok = ok or all(abs(x) < 2 ** 24 for x in g) and abs(float(ma) / CHI[prob][dof - 1] - 1) > .03 and rng.random() < .1
        if not ok:
            continue
        return "update %s %d %d %s %s %s %d %d %d %d %s" % (
            ints(c), k, nz, ints(flat(P) + flat(H) + [rng.randint(-9, 9) for _ in range(n)]), ints(r), ints(res), D,
            ms.disabled, prob, dof, ints([int(x) if prob < 100 else int(x) % prime for x in g] + [int(x) % prime for x in flat(G)]))
    return None


def make(name, cfg_):
    """generates the filter and compiles it with its driver; a model whose filter cannot be generated or does
    not compile is reported by the name of what failed"""
    m = K.Model(name, cfg_)
    d = os.path.join(vlib.BUILD, "kal", name)
    os.makedirs(d, exist_ok=True)
    sub = "kal/" + name
    stem = K.snake(K.camel(name, True))
    yp = os.path.join(d, name + ".yaml")
    open(yp, "w").write(m.yaml())
    try:
        root = vlib.gen_ekf(yp, name, sub)
    except vlib.CheckError as e:
        return m, None, "generator: " + str(e)
    gp = os.path.join(d, "glue.h")
    txt = m.glue(sub)
    if not os.path.exists(gp) or open(gp).read() != txt:
        open(gp, "w").write(txt)
    flags = ["-O0", "-I" + root, "-ftrivial-auto-var-init=pattern", '-DGLUE="%s"' % gp]
    srcs = ["%s/%s%s.cxx" % (sub, stem, x) for x in ("", "_state", "_types")]
    inc = flags + ["-I" + vlib.HARNESS, "-I" + vlib.REPO, "-I/usr/include/eigen3"]
    for s in srcs:
        e = vlib.compile_obj(os.path.join(root, s), os.path.join(vlib.BUILD, "obj", "kal_" + name, "gen", s + ".o"), inc)
        if e:
            return m, None, "compiler: " + e
    return m, vlib.build("kal_" + name, "kalman.cpp", [], flags=flags, gen_srcs=srcs, libs=[_base]), None


def models(rng, thorough):
    R = vlib.REPO
    out = [("rtk_ekf", yaml.safe_load(open(R + "/core/ekf/rtk_ekf.yaml")))]
    if thorough:
        out.append(("example_ekf", yaml.safe_load(open(R + "/core/ekf/ekf_gen/example_ekf.yaml"))))
    out += list(fixed_models())
    out += [random_model(rng, i) for i in range(12 if thorough else 2)]
    return out


def run(ctx):
    ctx.assumptions = ["models with vector and ambiguity-like states of fixed and variable size; rotation (SO3) states, single-dimension fixed states and variable-size inputs are not generated here",
                       "equality of matrices is decided modulo a prime per segment, with the solution of the innovation system as a certificate checked by the specification",
                       "gating uses the chi-square limit of one degree less than the size of the measurement, as documented by the generator"]
    rng = ctx.rng
    ctx.model_check("KalmanMC.tla", ctx.pick("KalmanMC.cfg", "KalmanMC2.cfg"))
    ms = models(rng, ctx.thorough)
    global _base
    _base = vlib.base_lib(["-I" + vlib.REPO, "-I/usr/include/eigen3"], set())
    with cf.ThreadPoolExecutor(vlib.NCPU) as ex:
        built = list(ex.map(lambda a: make(*a), ms))
    segs, exes, traces = [], {}, []
    for m, exe, err in built:
        if err:
            ctx.violation(dict(module="KalmanTrace.tla", label="model " + m.name, commands=[m.yaml()], error=err[-3000:]))
            continue
        exes[m.name] = exe
        mine = []
        for k in range(ctx.pick(4, 12)):
            p = rng.choice(PRIMES)
            seg = ["new %d %s" % (p, m.name), initial(rng, m)]
            for _ in range(ctx.pick(3, 6)):
                seg.append(predict(rng, m))
            for j in range(len(m.meas)):
                for _ in range(ctx.pick(3, 6)):
                    seg.append(update(rng, m, j, p))
            if k == 0 and m.name == "rtk_ekf" or k == 1 and m.name != "rtk_ekf":
                seg.append(predict(rng, m, True))
                for j in range(len(m.meas)):
                    seg.append(update(rng, m, j, p, True))
            head, rest = seg[:1], [s for s in seg[1:] if s]
            rng.shuffle(rest)
            mine.append(head + rest)
        segs += mine
        traces += vlib.run_driver(exe, mine)

    def corrupt(t, r):
        es = [e for e in t if e["op"] in ("predict", "update") and e["n"] and not (e["op"] == "update" and (e["outcome"] != 1 or e["disabled"]))]
        if not es:
            return None
        e = r.choice(es)
        i = r.randrange(len(e["cov"]))
        e["cov"][i] = (e["cov"][i] + 1) % 32000
        return t
    ctx.required_ops = ["initial", "predict", "update"]
    ctx.notes["filter_models"] = [m.name for m, _, _ in built]
    ctx.notes["outcomes"] = {o: sum(e["op"] == "update" and e["outcome"] == o for t in traces for e in t) for o in (0, 1, 2, 3)}
    ctx.check_traces("KalmanTrace.tla", "Trace.cfg", segs, traces, chunk_events=60,
                     rerun=lambda s: vlib.run_driver(exes[s[0].split()[2]], [s])[0], self_test=corrupt)
