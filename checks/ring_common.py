"""C01/C02: the fixed-size history buffer."""
import vlib

OPS = ["push_back", "emplace_back", "push_front", "emplace_front", "pop_back", "pop_front", "clear", "modify",
       "copy", "assign", "destroy", "create", "own_back", "own_front"]


def random_segment(rng, cap, length, self_assign=True):
    """Random long behaviour. The generator tracks only what is needed to stay within the operations'
    preconditions (no pop from an empty buffer)."""
    size = {0: 0}
    seg = ["new %d" % cap, "create 0"]
    v = 0
    bias = rng.choice(["balanced", "grow", "back", "front"])
    while len(seg) < length:
        b = rng.choice(sorted(size))
        w = {"push_back": 6, "emplace_back": 4, "push_front": 6, "emplace_front": 4, "pop_back": 7, "pop_front": 7,
             "clear": .4, "own_back": 2, "own_front": 2, "modify": 2, "copy": .6, "assign": .8, "destroy": .4, "create": .3}
        if bias == "grow":
            w.update(pop_back=2, pop_front=2)
        if bias == "back":
            w.update(push_front=.5, emplace_front=.5, pop_back=1)
        if bias == "front":
            w.update(push_back=.5, emplace_back=.5, pop_front=1)
        op = rng.choices(list(w), list(w.values()))[0]
        v += 1
        if op in ("push_back", "emplace_back", "push_front", "emplace_front"):
            seg.append("%s %d %d" % (op, b, v))
            size[b] = min(cap, size[b] + 1)
        elif op in ("own_back", "own_front"):
            if size[b]:
                i = rng.choice([0, size[b] - 1, rng.randrange(size[b])])
                seg.append("%s %d %d %d" % (op, b, i, rng.randrange(2)))
                size[b] = min(cap, size[b] + 1)
        elif op in ("pop_back", "pop_front"):
            if size[b]:
                seg.append("%s %d" % (op, b))
                size[b] -= 1
        elif op == "clear":
            seg.append("clear %d" % b)
            size[b] = 0
        elif op == "modify":
            if size[b]:
                seg.append("modify %d %d %d" % (b, rng.randrange(size[b]), v))
        elif op == "copy":
            c = next((x for x in (0, 1, 2) if x not in size), None)
            if c is not None:
                seg.append("copy %d %d" % (b, c))
                size[c] = size[b]
        elif op == "assign":
            c = rng.choice(sorted(size))
            seg.append("assign %d %d" % (b, c))
            size[c] = size[b]
        elif op == "destroy":
            if len(size) > 1:
                seg.append("destroy %d" % b)
                del size[b]
        elif op == "create":
            c = next((x for x in (0, 1, 2) if x not in size), None)
            if c is not None:
                seg.append("create %d" % c)
                size[c] = 0
    for b in sorted(size):
        seg.append("destroy %d" % b)
    return seg


def run(ctx, kind):
    exe = vlib.build("ring", "ring.cpp")
    ctx.model_check("Ring.tla", "Ring.cfg")
    ctx.model_check("Ring.tla", "Ring4.cfg")
    ctx.model_check("Ring.tla", "RingBroken.cfg", expect_violation="Invariant NothingBad is violated")
    ctx.model_check("Ring.tla", "RingBroken2.cfg", expect_violation="Invariant NothingBad is violated")
    segs = []
    for cfg in (["DequeGen1.cfg", "DequeGen2.cfg", "DequeGen3.cfg"] if not ctx.thorough else
                ["DequeGen1t.cfg", "DequeGen2t.cfg", "DequeGen3.cfg"]):
        s, r = vlib.tlc_generate("DequeGen.tla", cfg)
        ctx.states += r.distinct
        ctx.transitions += r.generated
        ctx.notes["behaviours_generated_by_tlc"] = ctx.notes.get("behaviours_generated_by_tlc", 0) + len(s)
        # end every behaviour with the destruction of what is left, so that leaks show
        for seg in s:
            left = {0}
            for c in seg[2:]:
                t = c.split()
                if t[0] == "copy":
                    left.add(int(t[2]))
                if t[0] == "destroy":
                    left.discard(int(t[1]))
            segs.append(seg + ["destroy %d" % b for b in sorted(left)])
    for cap, n, ln in [(1, 10, 60), (2, 20, 80), (3, 30, 80), (4, 30, 100), (7, 30, 150), (29, 8, 250), (99, 4, 500)]:
        for _ in range(n * ctx.pick(1, 12)):
            segs.append(random_segment(ctx.rng, cap, ln))
    ctx.required_ops = OPS

    def corrupt(t, rng):
        k = rng.randrange(2, len(t))
        e = t[k]
        if kind == "life":
            if rng.random() < .5:
                e["misuse"] = 1
            else:
                e["live"] = e["live"] + [12345]
            return t
        v = rng.choice(e["view"]) if e["view"] else None
        if not v:
            return None
        f = rng.choice(["size", "at", "fwd", "rev", "full", "diff"])
        if f == "size":
            v["size"] += 1
        elif f == "full":
            v["full"] = not v["full"]
        elif f == "diff":
            v["diff"][-1] += 1
        else:
            v[f] = v[f] + [7]
        return t

    ctx.conform("DequeTrace.tla", "Trace.cfg", exe, segs, drv_args=(kind,), self_test=corrupt)
