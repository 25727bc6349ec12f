"""C17: the receiver byte stream yields exactly the valid messages it carries."""
import vlib
import ubx_common as ubx


def run(ctx):
    rng = ctx.rng
    x = ubx.exe()
    ctx.model_check("UbxMC.tla", ctx.pick("UbxMC.cfg", "UbxMC13.cfg"))
    gen, r = vlib.tlc_generate("UbxGen.tla", ctx.pick("UbxGen.cfg", "UbxGen3.cfg"))
    gen = sorted(set(map(tuple, gen)))
    ctx.notes["behaviours_generated"] = len(gen)
    heavy = lambda g: sum(k in ("full", "lenhi") for k in g)
    gen = [g for g in gen if heavy(g) < 2]
    gen = rng.sample(gen, min(len(gen), ctx.pick(500, 3500)))
    segs = []
    for g in gen:
        bs = []
        for k in g[1:]:
            bs += ubx.piece(rng, k, ubx.MAX if rng.random() < .1 else 600)
        for _ in range(2):
            bs += ubx.frame(*ubx.an_id(rng), ubx.payload(rng, rng.choice([0, 1, 4, 30])))
        if rng.random() < .4:
            bs += [rng.choice([0, ubx.S1])] * 700 + ubx.frame(*ubx.an_id(rng), ubx.payload(rng, 4))
        segs.append(["new %d" % (ubx.MAX if "full" in g else 310)] + ubx.subscriptions(rng, ubx.ids_in(bs)) + ubx.chunks(rng, bs))
    # long mixed streams, subscriptions that come later, restarts, version messages
    kinds = ["empty", "short", "short", "long", "over", "cut", "sync", "class", "type", "lenlo", "payload", "cka", "ckb", "noise", "sync1", "sync12", "endsync", "inner"]
    for _ in range(ctx.pick(120, 800)):
        seg = ["new 310"]
        for _ in range(rng.choice([3, 10, 20])):
            bs = []
            for _ in range(rng.choice([1, 2, 4])):
                r = rng.random()
                if r < .12:
                    mod = rng.choice(["ZED-F9P", "NEO-M8P-2", "NEO-M8P-20", "ZED-F9P-04B-01-XYZ-000000", "A", ""])
                    v = rng.choice(["%d.%d" % (rng.randrange(1000), rng.randrange(1000)), "27.11", "18.00", "23.01", "1.2", ""])
                    bs += ubx.frame(0x0A, 4, ubx.version(rng, v, mod, rng.choice([0, 1, 3, 5])))
                elif r < .16:
                    bs += ubx.frame(0x0A, 4, ubx.payload(rng, 0) if rng.random() < .5 else [0] * 40)
                else:
                    bs += ubx.piece(rng, rng.choice(kinds))
            seg += [s for s in ubx.subscriptions(rng, ubx.ids_in(bs)) if rng.random() < .7]
            seg += ubx.chunks(rng, bs)
            if rng.random() < .08:
                seg.append("restart")
        segs.append(seg)

    def corrupt(t, r):
        es = [e for e in t if e["op"] == "rx" and e["msgs"]]
        if not es:
            return None
        e = r.choice(es)
        if r.random() < .5:
            e["msgs"].pop(r.randrange(len(e["msgs"])))
        else:
            e["msgs"][0]["t"] ^= 1
        return t
    ctx.required_ops = ["rx", "sub", "restart"]
    ctx.assumptions = ["a message that has begun extends over the length it announces (at most 2048 bytes of payload)",
                       "version strings are PROTVER=digits.digits and MOD=name"]
    ctx.conform("UbxTrace.tla", "Trace.cfg", x, segs, self_test=corrupt, chunk_events=1500)
