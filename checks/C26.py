"""C26: bit fields and checksums match their published definitions."""
import vlib
import nav_common as nav


def hexs(bs):
    return "".join("%02x" % b for b in bs)


def buf(rng, n):
    k = rng.random()
    return [0] * n if k < .08 else [255] * n if k < .16 else [rng.choice([0, 255, 0x80, 1, 0x7F, rng.randrange(256)]) for _ in range(n)]


def string(b):
    """85 bits to 11 bytes"""
    b = b[:85] + [0, 0, 0]
    return hexs([int("".join(map(str, b[k:k + 8])), 2) for k in range(0, 88, 8)])


def run(ctx):
    rng = ctx.rng
    x = vlib.build("bits", "bits.cpp", ["utils/crc.cxx"], flags=["-fsanitize=address"], libs=["-fsanitize=address"])
    ctx.model_check("CodesMC.tla", "CodesMC.cfg")
    cmds = []
    for n in range(1, 57):
        for off in range(8):
            for rep in range(ctx.pick(2, 12)):
                p = off + 8 * rng.choice([0, 0, 1, 2, 7])
                size = (p + n + 7) // 8 + rng.choice([0, 0, 1, 3])
                for sign in "us":
                    cmds.append("get t %s %d %d %s" % (sign, p, n, hexs(buf(rng, size))))
                    if n <= 32:
                        cmds.append("get r %s %d %d %s" % (sign, p, n, hexs(buf(rng, size))))
                if n <= 32:
                    v = rng.choice([0, 2**32 - 1, 1 << (n - 1), rng.randrange(2**32), rng.randrange(2**n)])
                    cmds.append("set %s %d %d %d %s" % (rng.choice("tr"), p, n, v, hexs(buf(rng, size))))
                    if n > 1:
                        cmds.append("mag %d %d %s" % (p, n, hexs(buf(rng, size))))
    # checksums: all lengths the pages use and others, single bits, random
    for k in range(64):
        for _ in range(ctx.pick(3, 20)):
            cmds.append("crc " + hexs(buf(rng, rng.choice([k + 1, 25, 3, 4]))))
    for k in range(200):
        b = [0] * 25
        b[k // 8] |= 128 >> (k % 8)
        cmds.append("crc " + hexs(b))
    # strings: every damage of one bit and many of two, of random code words
    for rep in range(ctx.pick(1, 4)):
        w = nav.glo_string(rng, rng.randrange(16), 0)
        cmds.append("ham " + string(w))
        for i in range(85):
            d = list(w)
            d[i] ^= 1
            cmds.append("ham " + string(d))
        pairs = [(i, j) for i in range(85) for j in range(i)]
        for i, j in rng.sample(pairs, ctx.pick(1200, 3570)):
            d = list(w)
            d[i] ^= 1
            d[j] ^= 1
            cmds.append("ham " + string(d))
    for _ in range(ctx.pick(300, 3000)):
        w = nav.glo_string(rng, rng.randrange(16), 0)
        k = rng.choice([0, 0, 1, 2, 3, 4, 5, 8])
        for n in rng.sample(range(85), k):
            w[n] ^= 1
        for n in rng.sample(range(77, 85), rng.choice([0, 0, 1, 2])):
            w[n] ^= 1
        cmds.append("ham " + string(w))
    rng.shuffle(cmds)
    segs = [["new"] + cmds[i:i + 150] for i in range(0, len(cmds), 150)]

    def corrupt(t, r):
        e = r.choice([e for e in t if e["op"] != "new"])
        if e["op"] == "ham":
            e["ok"] = not e["ok"]
        elif e["op"] == "set":
            e["after"][r.randrange(len(e["after"]))] ^= 1 << r.randrange(8)
        else:
            e["v"][3] ^= 1
        return t
    ctx.required_ops = ["get", "set", "mag", "crc", "ham"]
    ctx.assumptions = ["fields of 1 to 56 bits (compile-time width) and 1 to 32 bits (run-time width, and writing)",
                       "most significant bit first; the unused little-endian variant of getBit is not covered"]
    ctx.conform("BitsTrace.tla", "Trace.cfg", x, segs, self_test=corrupt)
