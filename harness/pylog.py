"""Reads a log with the repository's own Python reader and shows the records as it sees them:
for each leaf field its dotted name and its bytes, in order; and the times it derives from the stamps."""
import contextlib, importlib.util, io, json, sys
sys.dont_write_bytecode = True
import numpy as np
spec = importlib.util.spec_from_file_location("log_reader", sys.argv[1] + "/common/logging/log_reader.py")
reader = importlib.util.module_from_spec(spec)
spec.loader.exec_module(reader)


def leaves(v, name, out):
    if v.dtype.names:
        for n in v.dtype.names:
            leaves(v[n], name + "." + n if name else n, out)
    else:
        out.append((name, list(np.asarray(v).tobytes())))


CODES = ["<f8", "<f4", "<i8", "<i4", "<i2", "|i1", "<u8", "<u4", "<u2", "|u1"]


def types(d):
    if d.names:
        return [c for n in d.names for c in types(d[n])]
    return [CODES.index(d.base.str)]


def records(data):
    res = []
    for r in data:
        out = []
        leaves(r, "", out)
        res.append(out)
    return res


with contextlib.redirect_stdout(io.StringIO()):
    raw = reader.load(sys.argv[2], normalize_time=False)
    norm = reader.load(sys.argv[2])
key = int(sys.argv[3])
a, b = records(raw[key]), records(norm[key])
same = len(a) == len(b)
off = 0.
if same:
    for x, y, z in zip(a, b, norm[key]):
        # stamps are renamed on every level
        y = [(".".join("t" if c == "stamp" else c for c in n.split(".")), v) for n, v in y if n != "t"]
        same = same and x == y
        off = max(off, abs((float(z["t"]) - int(z["stamp"]["sec"])) * 1e9 - int(z["stamp"]["nsec"])))
print(json.dumps({"keys": sorted(map(int, raw)), "names": list(next(iter(a), [])) and [n for n, _ in a[0]], "types": types(raw[key].dtype), "recs": [dict(r) for r in a],
                  "same": same, "off": int(off)}))
