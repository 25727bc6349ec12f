"""Workloads for the logging checks (C05-C08)."""
import vlib
SRC = ["common/logging/log_writer.cxx", "common/logging/log_reader.cxx", "common/logging/log_format.cxx",
       "common/logging/serialize.cxx", "common/utctime.cxx", "common/quantized_time.cxx", "utils/progress_bar.cxx",
       "common/print.cxx", "common/check.cxx", "utils/split_string.cxx"]
SIZES = [8, 16, 25, 100, 64, 50, 13, 32]
KEYS = list(range(12)) + [12, 20, 21, 99, 100, 120, 200, 210, 999, 1000, 1200, 2000, 2100, 9999, 12000, 12934, 351234]
E9 = 10**9


def exe():
    return vlib.build("logging", "logging.cpp", SRC)


def hexrec(rng, schema):
    n = SIZES[schema]
    k = rng.random()
    if k < .1:
        return "00" * n
    if k < .2:
        return "ff" * n
    if k < .4:   # small numbers, so that equal and near-equal records occur
        return "".join("%02x" % rng.choice([0, 0, 0, 1, 0x40]) for _ in range(n))
    return "%0*x" % (2 * n, rng.getrandbits(8 * n))


def base_sec(rng):
    return rng.choice([0, 10, 1000000, 1500000000, 1600000000, 4102444800]) + rng.randrange(100000)


class Writer:
    """Generates the writing of one log; ops() yields its commands to be interleaved with others'."""
    def __init__(self, rng, name, sec, ns=0, keys=None, nrec=20, dir="d", ordered=True, dt=None, amends=None,
                 close=True):
        self.rng, self.name, self.dir, self.sec, self.ns = rng, name, dir, sec, ns
        self.keys = keys if keys is not None else rng.sample(KEYS, rng.randrange(0, 6))
        self.schema = {}
        self.cnt = {k: 0 for k in self.keys}
        self.ops = ["open %s %s %d %d" % (name, dir, sec, ns)]
        late = []
        for k in self.keys:
            self.schema[k] = rng.randrange(8)
            cmd = "stream %s %d %d" % (name, k, self.schema[k])
            if rng.random() < .7 or not self.ops:
                self.ops.append(cmd)
            else:
                late.append((k, cmd))
        ready = [k for k in self.keys if k not in [x[0] for x in late]]
        t = sec * E9 + ns
        last = {}
        for i in range(nrec):
            if late and (rng.random() < .3 or not ready):
                k, cmd = late.pop(0)
                self.ops.append(cmd)
                ready.append(k)
            if not ready:
                break
            k = rng.choice(ready)
            if dt:
                t += dt(rng)
            else:
                t += rng.choice([0, 0, 1, 1000, 10**6, 10**8, E9, rng.randrange(2 * E9)])
            tt = t
            if not ordered and rng.random() < .3:
                tt = t + rng.randrange(-3 * E9, 3 * E9)
            self.cnt[k] += 1
            last[k] = tt
            self.ops.append("log %s %d %d %d %s" % (name, k, tt // E9, tt % E9, hexrec(rng, self.schema[k])))
        for k, cmd in late:
            self.ops.append(cmd)
        if amends:
            self.ops.insert(rng.randrange(1, len(self.ops) + 1), "amends %s %s" % (name, amends))
        self.end = t + rng.randrange(-2 * E9, 10 * E9)
        if close:
            self.ops.append("close %s %d %d" % (name, self.end // E9, self.end % E9))


def interleave(rng, lists):
    lists = [list(x) for x in lists]
    out = []
    while any(lists):
        x = rng.choice([y for y in lists if y])
        for _ in range(rng.choice([1, 1, 2, 5])):
            if x:
                out.append(x.pop(0))
    return out


def corrupt(t, r):
    """Corrupts a recorded run so that it is no behaviour of the specification."""
    for i in r.sample(range(len(t)), len(t)):
        e = t[i]
        k = r.randrange(3)
        if e["op"] == "deliver":
            if k == 0:
                e["p"] = ("1" if e["p"][0] != "1" else "2") + e["p"][1:]
            elif k == 1:
                e["t"] = e["t"][:3] + [e["t"][3] + 1]
            else:
                del t[i]
            return t
        if e["op"] == "dump" and e["streams"]:
            s = r.choice(e["streams"])
            if k == 0 and s["recs"]:
                s["recs"].pop(r.randrange(len(s["recs"])))
            elif k == 1:
                s["num"] += 1
            else:
                e["end"][2] += 1
                if any(x["op"] == "destroy" and x["log"] == e["log"] for x in t):
                    e["start"][2] += 1
            return t
        if e["op"] == "rbegin":
            e["start"][2] += 1
            return t
    return None


def generated(cfg):
    return vlib.tlc_generate("LogGen.tla", cfg)[0]
