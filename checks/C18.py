"""C18: messages sent to the receiver are well framed."""
import vlib
import ubx_common as ubx


def run(ctx):
    rng = ctx.rng
    x = ubx.exe()
    ctx.model_check("UbxMC.tla", ctx.pick("UbxMC.cfg", "UbxMC13.cfg"))
    segs = []
    cmds = []
    for n in list(range(0, 70)) + [254, 255, 256, 257, 511, 512, 1000, 2047, 2048]:
        for _ in range(ctx.pick(2 if n < 70 else 1, 12)):
            c, t = rng.choice(ubx.IDS + [(rng.randrange(256), rng.randrange(256))])
            cmds.append("send %d %d %s" % (c, t, ubx.hexs(ubx.payload(rng, n))))
    for c in range(256):
        cmds.append("send %d %d %s" % (c, rng.randrange(256), ubx.hexs(ubx.payload(rng, rng.randrange(6)))))
        cmds.append("send %d %d %s" % (rng.randrange(256), c, ubx.hexs(ubx.payload(rng, rng.randrange(6)))))
    rng.shuffle(cmds)
    segs += [["new 0"] + cmds[i:i + 40] for i in range(0, len(cmds), 40)]
    # requests in every order, before and after the version is known, with traffic in between
    def u8():
        return rng.choice([0, 1, 255, 128, rng.randrange(256)])

    def u32():
        return rng.choice([0, 1, 2**32 - 1, 0x80000000, 0x209102a7, 0x40030010, rng.randrange(2**32)])

    def request():
        k = rng.randrange(9)
        if k == 0:
            return "enable %d %d %d" % (u8(), u8(), u8())
        if k in (1, 2):
            size = rng.choice([1, 1, 2, 4])
            return "configure %d %d %d %d %d" % (u8(), u8(), u32() % 2**(8 * size), u32(), size)
        if k == 3:
            return "getcfg %d %d %d" % (u8(), u8(), u32())
        if k == 4:
            return "rate %d" % u8()
        if k == 8:
            c, t = ubx.an_id(rng)
            return "send %d %d %s" % (c, t, ubx.hexs(ubx.payload(rng, rng.choice([0, 3, 50, 300]))))
        return ["dyn", "nmea", "survey"][k - 5]

    def reply():
        v = rng.choice(["27.11", "23.01", "24.00", "18.00", "22.5", "100.0", "%d.%d" % (rng.randrange(50), rng.randrange(100))])
        f = ubx.frame(0x0A, 4, ubx.version(rng, v, rng.choice(["ZED-F9P", "NEO-M8P-2"]), rng.choice([0, 4])))
        r = rng.random()
        if r < .2:
            f = ubx.piece(rng, rng.choice(["short", "noise", "empty", "ckb", "over"])) + f
        return f
    for k in range(ctx.pick(220, 2500)):
        seg = ["new 60"]
        for _ in range(rng.choice([4, 10, 25])):
            r = rng.random()
            if r < .12:
                seg.append("version " + ubx.hexs(reply()))
            elif r < .2:
                seg += ubx.chunks(rng, ubx.piece(rng, rng.choice(["short", "empty", "noise", "inner", "cut"])))
            elif r < .24:
                seg += ubx.chunks(rng, reply())
            else:
                seg.append(request())
        segs.append(seg)
    # no answer, and an answer to something else
    segs.append(["new 60", "version -", "rate 5", "version " + ubx.hexs(ubx.frame(5, 1, [6, 1]))])

    def corrupt(t, r):
        es = [e for e in t if e.get("sent")]
        if not es:
            return None
        e = r.choice(es)
        e["sent"][r.randrange(len(e["sent"]))] ^= 1 << r.randrange(8)
        return t
    ctx.required_ops = ["send", "req", "rx"]
    ctx.assumptions = ["payloads of at most 2048 bytes (the message buffer); configuration values of 1, 2 and 4 bytes"]
    ctx.conform("UbxTrace.tla", "Trace.cfg", x, segs, self_test=corrupt, chunk_events=2500)
