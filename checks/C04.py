"""C04: conversions between satellite time scales, calendar and UTC."""
import calendar
import vlib


def run(ctx):
    rng = ctx.rng
    exe = vlib.build("timestamps", "timestamps.cpp", ["common/utctime.cxx", "common/quantized_time.cxx"])
    ctx.model_check("CalendarMC.tla", "CalendarMC.cfg")
    cmds = []
    W = 604800000
    weeks = sorted(set(list(range(0, 4)) + [1023, 1024, 2047, 2048, 2063, 2185, 3549, 3550, 3551, 3552, 5000] +
                       [rng.randrange(0, 4000) for _ in range(ctx.pick(60, 600))]))
    for w in weeks:
        for ms in [0, 1, 999, 1000, 1001, 17999, 18000, 86399999, 86400000, W - 1, W - 18000, W - 10800000, W - 1000] + \
                [rng.randrange(W) for _ in range(6)]:
            cmds.append("gps %d %d" % (w, ms))
            cmds.append("glo %d %d" % (w + 1, ms))
    for _ in range(ctx.pick(1500, 15000)):
        sec = rng.choice([rng.randrange(315964818, 4 * 10**9), 315964818 + 604800 * rng.randrange(3000) + rng.randrange(-2, 3),
                          604800 * rng.randrange(600, 4000) - 10800 + rng.randrange(-2, 3)])
        if sec < 315964818:
            sec += 604800
        cmds.append("inst %d %d" % (sec, rng.choice([0, 999, rng.randrange(1000)])))
        ref = rng.choice([sec, sec - (sec + 10800) % 86400 + rng.randrange(-60, 61)])
        tod = rng.choice([rng.randrange(86400000), rng.randrange(60000), 86400000 - rng.randrange(1, 60000),
                          ((ref + 10800) % 86400) * 1000 + rng.randrange(1000)])
        cmds.append("tod %d %d %d" % (ref, rng.randrange(1000), tod))
    for _ in range(ctx.pick(1500, 15000)):
        y = rng.randrange(1971, 2100)
        m = rng.choice([1, 2, 2, 3, 12, rng.randrange(1, 13)])
        last = calendar.monthrange(y, m)[1]
        d = rng.choice([1, last, rng.randrange(1, last + 1)])
        cmds.append("cal %d %d %d %d %d %d %d" % (y, m, d, rng.choice([0, 23, rng.randrange(24)]), rng.randrange(60),
                    rng.choice([0, 59, rng.randrange(60)]), rng.choice([0, 1, 999999999, rng.randrange(10**9), rng.randrange(1000) * 10**6])))
    rng.shuffle(cmds)
    segs = [["new 0 0"] + cmds[i:i + 150] for i in range(0, len(cmds), 150)]
    ctx.required_ops = ["gps", "glo", "inst", "tod", "cal"]

    def corrupt(t, r):
        e = r.choice([e for e in t if e["op"] in ("gps", "glo", "cal", "tod")])
        e["r"][1] += 1
        return t
    ctx.assumptions = ["the library's time base puts GPS time zero at 1980-01-06 00:00:18, as its tests pin down",
                       "weeks from 0 on (instants after the epoch of the scale)"]
    ctx.conform("CalendarTrace.tla", "Trace.cfg", exe, segs, self_test=corrupt)
