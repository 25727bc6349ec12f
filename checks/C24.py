"""C24: a log stream's declared record layout is the layout of its records."""
import vlib
from log_common import SRC
KINDS = 16


def run(ctx):
    rng = ctx.rng
    exe = vlib.build("logformat", "logformat.cpp", SRC + ["common/ephemeris/gps.cxx", "common/ephemeris/galileo.cxx",
                                                          "common/ephemeris/glonass.cxx"])
    ctx.model_check("LogFormatMC.tla", "LogFormatMC.cfg")
    segs = []
    for k in range(KINDS):
        for style in (1, 2):
            segs.append(["new", "rec %d 2 %d %d" % (k, style, rng.getrandbits(40))])
        for n in ctx.pick((0, 3), (0, 1, 2, 3, 5, 9)):
            segs.append(["new", "rec %d %d 0 %d py" % (k, n, rng.getrandbits(40))])
        for _ in range(ctx.pick(6, 100)):
            segs.append(["new", "rec %d %d 0 %d" % (k, rng.choice([0, 1, 2, 4]), rng.getrandbits(60))])

    def corrupt(t, r):
        hs = [e for e in t if e["op"] == "header"]
        rs = [e for e in t if e["op"] == "records" and e["mem"]]
        if not hs or not rs:
            return None
        f = hs[0]["fields"]
        k = r.randrange(3)
        if k == 0 and len(f) > 3:
            f[2], f[3] = f[3], f[2]
            if f[2]["t"] == f[3]["t"] and f[2]["rows"] == f[3]["rows"] and \
                    rs[0]["mem"][0][f[2]["n"]] == rs[0]["mem"][0][f[3]["n"]]:
                return None
        elif k == 1:
            f[-1]["rows"] += 1
        else:
            n = r.choice(list(rs[0]["back"][0]))
            rs[0]["back"][0][n][0] ^= 1
        return t
    ctx.required_ops = ["header", "records", "python"]
    ctx.assumptions = ["the order of the elements inside a matrix field is not part of the declared layout",
                       "rigid motions are exact in floating point, so that taking them apart and rebuilding them is exact"]
    ctx.conform("LogFormatTrace.tla", "Trace.cfg", exe, segs, self_test=corrupt,
                drv_env={"PYLOG": "python3-vt -B %s/harness/pylog.py %s" % (vlib.VERIF, vlib.REPO)})
