"""Streams of the receiver protocol."""
import vlib

S1, S2, MAX = 0xB5, 0x62, 2048


def exe():
    # whatever lies in memory that nothing has initialised must not matter
    return vlib.build("ubx", "ubx.cpp", ["parsers/ubx/ubx.cxx", "common/print.cxx"],
                      flags=["-fsanitize=address", "-I" + vlib.HARNESS + "/stubs", "-ftrivial-auto-var-init=pattern"],
                      libs=["-fsanitize=address"])


def hexs(b):
    return bytes(b).hex() or "-"


def body(c, t, p):
    return [c, t, len(p) % 256, len(p) // 256] + list(p)


def frame(c, t, p):
    b = body(c, t, p)
    a = k = 0
    for x in b:
        a = (a + x) % 256
        k = (k + a) % 256
    return [S1, S2] + b + [a, k]


IDS = [(2, 0x13), (2, 0x15), (1, 7), (5, 1), (5, 0), (0x0A, 4), (S1, S2), (0, 0), (255, 255), (0x62, 0xB5)]


def payload(rng, n):
    k = rng.random()
    if k < .1:
        return [0] * n
    if k < .2:
        return [255] * n
    if k < .35:
        return [rng.choice([S1, S2]) for _ in range(n)]
    return [rng.choice([S1, S2, 0, rng.randrange(256), rng.randrange(256)]) for _ in range(n)]


def version(rng, ver, mod, extra=0, whole=True):
    """a version message: 30 + 10 characters and strings of 30"""
    s = lambda t, n: list(t.encode())[:n] + [0] * (n - len(t))
    ext = ["ROM BASE 0x118B2060", "FWVER=HPG 1.12"] + (["PROTVER=" + ver] if ver else []) + (["MOD=" + mod] if mod else [])
    ext += rng.sample(["GPS;GLO;GAL;BDS", "QZSS", "SBAS", "ANTSTATUS=DONTKNOW", "x MOD=NOT-ME", "aPROTVER=99.9", "MODEL=1"], extra)
    if rng.random() < .5:
        rng.shuffle(ext)
    p = s("EXT CORE 1.00 (94e56e)", 30) + s("00190000", 10)
    for e in ext:
        p += s(e, 30)
    return p


def an_id(rng):
    while True:
        i = rng.choice(IDS + [(rng.randrange(256), rng.randrange(256))])
        if i != (0x0A, 4):
            return i



def piece(rng, kind, full=MAX):
    """bytes of one piece of a stream"""
    c, t = an_id(rng)
    n = rng.choice([1, 1, 2, 3, 8, 40])
    f = frame(c, t, payload(rng, n))
    other = lambda x: (x + rng.randrange(1, 256)) % 256
    if kind == "empty":
        return frame(c, t, [])
    if kind == "short":
        return f
    if kind == "long":
        return frame(c, t, payload(rng, rng.choice([100, 255, 256, 257, 300])))
    if kind == "full":
        return frame(c, t, payload(rng, rng.choice([full, full - 1])))
    if kind == "over":
        n = rng.choice([MAX + 1, MAX + 1, 65535, 0xB500 + rng.randrange(256), rng.randrange(MAX + 1, 65536), 0x0900])
        return [S1, S2, c, t, n % 256, n // 256] + payload(rng, rng.choice([0, 0, 1, 20]))
    if kind == "cut":
        return f[:rng.randrange(1, len(f))]
    at = {"sync": rng.randrange(2), "class": 2, "type": 3, "lenlo": 4, "lenhi": 5, "payload": 6 + rng.randrange(n), "cka": -2, "ckb": -1}
    if kind in at:
        k = at[kind]
        f[k] = other(f[k]) if kind != "lenhi" else rng.choice([1, 2, 8, 9, S1, other(0)])
        return f
    if kind == "noise":
        return payload(rng, rng.choice([1, 2, 5, 30]))
    if kind == "sync1":
        return [S1] * rng.choice([1, 2, 3])
    if kind == "sync12":
        return [S1, S2]
    if kind == "endsync":
        # an intact message whose last check byte is the first sync byte, and then the second one
        while True:
            f = frame(c, t, payload(rng, n) if n else [])
            p = f[6:-2]
            for x in range(256):
                p[-1] = x
                f = frame(c, t, p)
                if f[-1] == S1:
                    # (c, t, 0, 0) would pass for a message of its own
                    return f + [S2] + [rng.randrange(256) for _ in range(rng.choice([0, 1, 9]))]
            c, t = an_id(rng)
    if kind == "inner":
        # a message that carries a whole message
        return frame(c, t, payload(rng, 2) + frame(*an_id(rng), payload(rng, 3)) + payload(rng, 1))
    raise ValueError(kind)


def chunks(rng, bs):
    mode = rng.choice(["all", "one", "rand", "rand", "pairs"])
    if mode == "all" or not bs:
        return ["rx " + hexs(bs)]
    if mode == "one" and len(bs) < 120:
        return ["rx " + hexs([b]) for b in bs]
    out, k = [], 0
    while k < len(bs):
        n = 2 if mode == "pairs" and len(bs) < 120 else rng.choice([0, 1, 2, 3, 7, 8, 9, 20, 64, 300])
        out.append("rx " + hexs(bs[k:k + n]))
        k += n
    return out


def subscriptions(rng, ids):
    out = []
    for l in (1, 2):
        for c, t in ids:
            if rng.random() < (.9 if l == 1 else .4):
                out.append("sub %d %d %d" % (l, c, t))
    return out


def ids_in(bs):
    """classes and types at every place a message could begin"""
    return sorted({(bs[k + 2], bs[k + 3]) for k in range(len(bs) - 3) if bs[k] == S1 and bs[k + 1] == S2})
