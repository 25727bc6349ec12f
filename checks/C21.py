"""C21: configuration lookups give exactly what the file says."""
import json
import yaml
import vlib

SHAPES = [(1, 1), (2, 1), (3, 1), (6, 1), (1, 3), (2, 2), (2, 3), (3, 3), (4, 2)]


def leaf(t):
    return ("leaf", t)


def plain_ok(t):
    return t != "" and all(c.isalnum() or c in "_.-+" for c in t) and t[0] not in "-" and t.lower() not in ("null", "~") or \
        (len(t) > 1 and t[0] == "-" and t[1].isdigit())


def scalar(rng, t, flow=False):
    q = rng.random()
    if plain_ok(t) and q < .8:
        return t
    if q < .5 and "'" not in t and t.isprintable():
        return "'" + t + "'"
    return json.dumps(t)


class Emit:
    """writes a tree as YAML, in any of several styles; equal subtrees may be written as aliases"""
    def __init__(self, rng):
        self.rng, self.anchors, self.n = rng, {}, 0

    def anchor(self, node):
        if self.rng.random() < .15 and node[0] != "null" and repr(node) not in self.anchors:
            self.n += 1
            self.anchors[repr(node)] = "n%d" % self.n
            return "&n%d " % self.n
        return ""

    def flow(self, node):
        k = node[0]
        if k == "null":
            return "~"
        if k == "leaf":
            return scalar(self.rng, node[1], True)
        if k == "list":
            return "[" + ", ".join(self.flow(x) for x in node[1]) + "]"
        return "{" + ", ".join("%s: %s" % (scalar(self.rng, n), self.flow(x)) for n, x in node[1].items()) + "}"

    def value(self, node, ind):
        """what follows a colon or dash"""
        rng = self.rng
        if repr(node) in self.anchors and rng.random() < .7:
            return " *" + self.anchors[repr(node)] + "\n"
        if node[0] == "null":
            return rng.choice([" ~", " null", ""]) + "\n"
        if node[0] == "leaf" or not node[1] or rng.random() < .35:
            s = self.flow(node)
            return " " + self.anchor(node) + s + rng.choice(["", "", "  # said so"]) + "\n"
        # an anchor may be referred to only after the node it names
        body = self.block(node, ind + rng.choice([1, 2, 4]))
        a = self.anchor(node)
        return (" " + a.strip() if a else "") + rng.choice(["", "", " # below"]) + "\n" + body

    def block(self, node, ind):
        out = ""
        items = node[1].items() if node[0] == "map" else [(None, x) for x in node[1]]
        for n, x in items:
            if self.rng.random() < .1:
                out += self.rng.choice(["\n", " " * ind + "# a: 12\n"])
            out += " " * ind + ("-" if n is None else scalar(self.rng, n) + ":") + self.value(x, ind)
        return out


def write(rng, tree):
    if not tree[1]:
        return rng.choice(["{}\n", "--- {}\n"])
    e = Emit(rng)
    return rng.choice(["", "---\n", "# configuration\n"]) + (e.flow(tree) + "\n" if rng.random() < .1 else e.block(tree, 0))


def loaded(x):
    if isinstance(x, dict):
        return ("map", {k: loaded(v) for k, v in x.items()})
    if isinstance(x, list):
        return ("list", [loaded(v) for v in x])
    return ("leaf", x)


def bare(t):
    """null nodes as the reference parser's base loader shows them"""
    if t[0] == "map":
        return ("map", {k: bare(v) for k, v in t[1].items()})
    if t[0] == "list":
        return ("list", [bare(v) for v in t[1]])
    return ("leaf", "") if t[0] == "null" else t


def same(a, b):
    if a == ("null",):
        return b in (("leaf", "~"), ("leaf", "null"), ("leaf", ""))
    if a[0] != b[0]:
        return False
    if a[0] == "map":
        return list(a[1]) == list(b[1]) and all(same(a[1][k], b[1][k]) for k in a[1])
    if a[0] == "list":
        return len(a[1]) == len(b[1]) and all(map(same, a[1], b[1]))
    return a == b


def codes(t):
    return list(t.encode())


def described(t):
    if t[0] == "map":
        return dict(k="map", names=[codes(n) for n in t[1]], at=[described(x) for x in t[1].values()])
    if t[0] == "list":
        return dict(k="list", at=[described(x) for x in t[1]])
    return dict(k="leaf", t=codes(t[1])) if t[0] == "leaf" else dict(k="null")


def hexed(s):
    return "x" + s.encode().hex()


def number(rng):
    r = rng.random()
    if r < .35:
        return str(rng.choice([0, 1, -1, 7, -42, 100, 999999, rng.randint(-1000, 1000)]))
    if r < .75:
        return rng.choice(["%.1f", "%.2f", "%.3f"]) % (rng.randint(-2000000, 2000000) / 1000)
    return rng.choice(["1e3", "2.5e1", "-1E2", "5e-3", "+3", "0.125e+2", ".5", "-.25", "7.", "1e-2", "12e0", "-0"])


WORDS = ["yes", "No", "TRUE", "false", "on", "Off", "y", "n", "tRue", "String Config", "a: b", "# no comment", "1.2.3", "12 m", "", "-", "1e",
         "--1", "2,5", "x", "../logs/simulate/", "it's", "1_000", "é", "tab\there", "[1, 2]", "{a: 1}", "N", "YES", "oN", "fALSE", "nO", "1.5x"]
NAMES = ["a", "b", "gyro", "imu_stdev", "dt", "A", "a b", "2x", "T_I2e", "ab", "lla0.deg", "a/b", "é"]


def random_tree(rng, depth=0):
    r = rng.random()
    if depth == 0 or (r < .4 and depth < 4):
        names = rng.sample(NAMES, rng.choice([0, 1, 2, 3, 4]) if depth else rng.choice([1, 3, 5, 7]))
        return ("map", {n: random_tree(rng, depth + 1) for n in names})
    if r < .7:
        return random_list(rng)
    if r < .74:
        return ("null",)
    return leaf(number(rng) if rng.random() < .6 else rng.choice(WORDS))


def random_list(rng):
    r = rng.random()
    if r < .2:
        k = rng.choice([0, 1, 2, 4])
        rows = [("list", [leaf(number(rng)) for _ in range(3)]) for _ in range(k)]
        if rows and rng.random() < .3:
            rows[rng.randrange(k)] = rng.choice([("list", [leaf("1"), leaf("2")]), ("list", [leaf("1")] * 4), leaf("3"),
                                                 ("list", [leaf("1"), leaf("x"), leaf("2")]), ("map", {"x": leaf("1")})])
        return ("list", rows)
    if r < .3:
        return ("list", [leaf(rng.choice(WORDS)) for _ in range(rng.choice([1, 2, 3]))])
    xs = [leaf(number(rng)) for _ in range(rng.choice([0, 1, 2, 3, 3, 4, 5, 6, 6, 7, 8, 9, 9, 10]))]
    if xs and rng.random() < .15:
        xs[rng.randrange(len(xs))] = rng.choice([leaf("x"), leaf(""), ("list", [leaf("1")]), ("map", {}), leaf("1.5x")])
    return ("list", xs)


def spots(t, at=()):
    yield at, t
    if t[0] == "map":
        for n, x in t[1].items():
            yield from spots(x, at + (n,))


def lookups(rng, tree, n):
    """a sequence of lookups: of what is there, in likely and unlikely types, and of what is not"""
    all_ = [s for s in spots(tree) if s[0] and not any("/" in x for x in s[0])]
    names = [x for x in NAMES if "/" not in x]
    out = []
    while len(out) < n:
        r = rng.random()
        if all_ and r < .72:
            path, node = rng.choice(all_)
        elif all_ and r < .86:
            path = list(rng.choice(all_)[0])
            q = rng.random()
            if q < .45:
                path += [rng.choice(names)]
            elif q < .6:
                path += [rng.choice(names), rng.choice(names)]
            elif q < .8:
                path[rng.randrange(len(path))] = rng.choice(names)
            else:
                path.insert(rng.randrange(len(path)), rng.choice(names + [""]))
            node = None
        else:
            path, node = [rng.choice(names) for _ in range(rng.choice([1, 1, 2, 3]))], None
        here = tree
        for p in path:
            here = here[1].get(p) if here and here[0] == "map" else None
        like = ["int", "dbl", "bool", "str", "ints", "dbls", "strs", "mat", "vecs"]
        if here and rng.random() < .7:
            k = here[0]
            like = dict(leaf=["int", "dbl", "bool", "str"], list=["ints", "dbls", "strs", "mat", "mat", "mat", "vecs"]).get(k, like)
        ty = rng.choice(like)
        sh = (0, 0)
        if ty == "mat":
            sh = rng.choice(SHAPES)
            if here and here[0] == "list" and rng.random() < .6:
                sh = rng.choice([s for s in SHAPES if s[0] * s[1] == len(here[1])] or SHAPES)
        if ty == "vecs":
            sh = (3, 1)
        # the texts of null nodes are left open
        if ty == "str" and here == ("null",):
            continue
        req = rng.random() < .3
        if here is None and req and rng.random() < .6:
            req = False
        out.append("get %s %d %d %d %s" % (ty, sh[0], sh[1], req, hexed("/".join(path))))
        if here is None and req:
            break                   # the program stops here
    return out


def run(ctx):
    ctx.assumptions = ["numbers in plain decimal notation; hexadecimal, infinite, not-a-number and leading-zero spellings, text of null nodes, empty keys and a trailing slash are left open",
                       "files are those PyYAML and the specification read alike"]
    rng = ctx.rng
    ctx.model_check("ConfigMC.tla", ctx.pick("ConfigMC.cfg", "ConfigMC3.cfg"))
    exe = vlib.build("config", "config.cpp", ["utils/config.cxx", "utils/split_string.cxx", "common/check.cxx", "common/print.cxx"],
                     flags=["-fsanitize=address", "-O1"], libs=["-fsanitize=address", "-lyaml-cpp"])
    gen, _ = vlib.tlc_generate("ConfigGen.tla", "ConfigGen.cfg")
    gen = sorted(set(map(tuple, gen)))
    ctx.notes["behaviours_generated"] = len(gen)
    what = dict(word=leaf("x"), number=leaf("12"), nolist=("list", []), mixed=("list", [leaf("1"), leaf("x")]),
                numbers=("list", [leaf("1"), leaf("-5")]), map=("map", {}), null=("null",))
    segs = []

    def add(tree, cmds):
        for _ in range(20):
            text = write(rng, tree)
            try:
                if same(tree, loaded(yaml.load(text, yaml.BaseLoader) or {})):
                    break
            except yaml.YAMLError:
                pass
        else:
            raise vlib.CheckError("cannot write %r, last as\n%s" % (tree, text))
        segs.append(["new %s %s %s" % (rng.choice(["file", "node"]), hexed(text), hexed(json.dumps(described(tree))))] + cmds)

    for b in gen:
        tree = ("map", {})
        for k in range(1, len(b), 2):
            at = tree
            for name in b[k][:-1]:
                if at[1].get(name, ("none",))[0] != "map":
                    at[1][name] = ("map", {})
                at = at[1][name]
            v = what[b[k + 1]]
            at[1][b[k][-1]] = ("map", {}) if v[0] == "map" else v
        asks = ["get %s %d %d 0 %s" % (ty, r, c, hexed("/".join(p)))
                for p in ("a", "b", "aa", "ab", "ba", "bb", "aab", "bba") for ty, r, c in
                (("int", 0, 0), ("dbl", 0, 0), ("str", 0, 0), ("dbls", 0, 0), ("ints", 0, 0), ("mat", 2, 1), ("mat", 3, 1), ("strs", 0, 0))
                if not (ty == "str" and lookup(tree, p) == ("null",))]
        add(tree, rng.sample(asks, min(len(asks), ctx.pick(24, 60))))
    for _ in range(ctx.pick(1200, 12000)):
        tree = random_tree(rng)
        add(tree, lookups(rng, tree, rng.choice([5, 10, 20])))

    def corrupt(t, r):
        es = [e for e in t if e["op"] == "got"]
        if not es:
            return None
        e = r.choice(es)
        if r.random() < .5:
            e["found"] = not e["found"]
        elif isinstance(e["v"], list):
            e["v"] = e["v"] + [5]
        else:
            e["v"] += 1
        return t
    ctx.required_ops = ["ask", "got", "crash"]
    ctx.conform("ConfigTrace.tla", "Trace.cfg", exe, segs, self_test=corrupt)


def lookup(tree, path):
    for p in path:
        tree = tree[1].get(p) if tree and tree[0] == "map" else None
    return tree
