"""C19: ambiguity resolution returns the true best integer vectors."""
from fractions import Fraction as F
import json
import vlib


def mul(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]


def tr(A):
    return [list(r) for r in zip(*A)]


def inv_upper(U):
    n = len(U)
    X = [[F(0)] * n for _ in range(n)]
    for j in range(n):
        for i in range(n - 1, -1, -1):
            s = F(int(i == j)) - sum(U[i][k] * X[k][j] for k in range(i + 1, n))
            X[i][j] = s / U[i][i]
    return X


def unimodular(rng, n, steps, size):
    """a random integer matrix of determinant +-1 and its inverse"""
    v = [[int(i == j) for j in range(n)] for i in range(n)]
    w = [r[:] for r in v]
    for _ in range(steps):
        if n == 1 or rng.random() < .15:
            i = rng.randrange(n)
            v[i] = [-x for x in v[i]]
            for r in w:
                r[i] = -r[i]
            continue
        i, j = rng.sample(range(n), 2)
        if rng.random() < .25:
            v[i], v[j] = v[j], v[i]
            for r in w:
                r[i], r[j] = r[j], r[i]
            continue
        k = rng.randint(-size, size)
        v[i] = [a + k * b for a, b in zip(v[i], v[j])]     # row i += k row j
        for r in w:
            r[j] -= k * r[i]
    return v, w


def best(d, u, p, f, m, k, limit):
    """the k best vectors (a hint for the specification), depth first; None when it takes too long"""
    n = len(d)
    w = m * p
    out, nodes = [], [0]
    z = [0] * n

    def go(i, c):
        nodes[0] += 1
        if nodes[0] > limit:
            raise OverflowError
        if i < 0:
            out.append((c, list(z)))
            out.sort()
            del out[k:]
            return
        cen = p * f[i] - sum(u[i][j] * (m * z[j] - f[j]) for j in range(i + 1, n))
        b = (2 * cen + w) // (2 * w)
        for s in range(200):
            new = [b] if s == 0 else [b - s, b + s]
            any_ = False
            for x in new:
                e = c + d[i] * (w * x - cen) ** 2
                if len(out) < k or e < out[-1][0]:
                    any_ = True
                    z[i] = x
                    go(i - 1, e)
            if not any_ and s:
                break
    try:
        go(n - 1, 0)
    except OverflowError:
        return None
    return out if len(out) == k else None


def problem(rng, n, hard):
    m = rng.choice([1, 2, 4, 8])
    p = rng.choice([1, 2, 2, 4])
    d = [rng.choice([1, 1, 2, 3, 4, 6, 12]) for _ in range(n)]
    r = rng.choice([0, 1, p, 2 * p + 1])
    u = [[p if i == j else rng.randint(-r, r) if j > i else 0 for j in range(n)] for i in range(n)]
    v, vi = unimodular(rng, n, rng.choice([0, 2, n, 3 * n] if hard else [0, 1]), rng.choice([1, 2, 5, 30] if hard else [1]))
    big = max(abs(x) for M in (v, vi) for row in M for x in row)
    if big > 20000:
        return None
    k = rng.choice([2, 2, 3, 3, 3, 4, 5, 6])
    # the estimate: anything, exact integers, half-integers, near an integer vector
    kind = rng.random()
    if kind < .1:
        g = [m * rng.randint(-3, 3) for _ in range(n)]
    elif kind < .25 and m > 1:
        g = [m // 2 + m * rng.randint(-2, 2) for _ in range(n)]
    elif kind < .4 and m > 1:
        g = [m * rng.randint(-2, 2) for _ in range(n)]
        g[rng.randrange(n)] += rng.choice([-1, 1])
    else:
        g = [rng.randint(-3 * m, 3 * m) for _ in range(n)]
    f = [sum(a * b for a, b in zip(row, g)) for row in v]      # y = v z
    if max(map(abs, f)) > 2**20 // max(1, 2 * r):
        return None
    hint = best(d, u, p, f, m, k, 1500)
    if hint is None or hint[-1][0] > 400000 or max(abs(x) for _, y in hint for x in y) > 2**20:
        return None
    # covariance: inverse of v' u' D u v / p^2, times 12
    U = [[F(x, p) for x in row] for row in u]
    Ui = inv_upper(U)
    A = mul([[F(x) for x in row] for row in vi], Ui)
    Q = mul([[a * F(12, x) for a, x in zip(row, d)] for row in A], tr(A))
    W = mul(tr([[F(x) for x in row] for row in v]), mul(mul(tr(U), [[d[i] if i == j else 0 for j in range(n)] for i in range(n)]), mul(U, [[F(x) for x in row] for row in v])))
    if max(abs(x) for r in Q for x in r) * max(abs(x) for r in W for x in r) > 10**10:
        return None      # too ill-conditioned for double precision
    s = rng.choice([0, 0, 1, 1000, 10**6, 10**8])
    shift = [rng.randint(-s, s) for _ in range(n)]
    est = [F(x, m) + y for x, y in zip(g, shift)]
    spec = dict(d=d, u=u, p=p, m=m, f=f, v=v, vi=vi, hint=[y for _, y in hint])
    nums = est + [x for row in Q for x in row] + [F(x) for x in shift] + [F(12 * m * m * p * p)]
    return "lambda %d %d %s %s" % (k, n, json.dumps(spec, separators=(",", ":")), " ".join(float(x).hex() for x in nums))


def run(ctx):
    rng = ctx.rng
    x = vlib.build("lambda", "lambda.cpp", ["core/solver/lambda.cxx", "common/check.cxx", "common/print.cxx"],
                   flags=["-fsanitize=address"], libs=["-fsanitize=address"])
    ctx.model_check("LatticeMC2.tla", "LatticeMC.cfg")
    if ctx.thorough:
        ctx.model_check("LatticeMC2.tla", "LatticeMC3.cfg")
    cmds, dims = [], {}
    want = ctx.pick(900, 8000)
    while len(cmds) < want:
        n = rng.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8])
        c = problem(rng, n, rng.random() < .8)
        if c:
            cmds.append(c)
            dims[n] = dims.get(n, 0) + 1
    ctx.notes["dimensions"] = {str(k): dims[k] for k in sorted(dims)}
    segs = [["new"] + cmds[i:i + 25] for i in range(0, len(cmds), 25)]

    def corrupt(t, r):
        e = r.choice([e for e in t if e["op"] == "lambda"])
        if r.random() < .5:
            e["fixed"][r.randrange(e["n"])] += r.choice([-1, 1])
            # another best one?
        else:
            e["ratio"] += 9
        return t if "fixed" in e and e["ratio"] not in (4096, 4105) else None
    ctx.required_ops = ["lambda"]
    ctx.assumptions = ["dimensions 1 to 8, candidates 2 to 6, estimates below 2^31 in size",
                       "covariances whose condition double precision can represent (product of largest entries of it and its inverse up to 1e10)"]
    ctx.conform("LambdaTrace.tla", "Trace.cfg", x, segs, self_test=corrupt, chunk_events=200)
