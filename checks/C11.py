"""C11: delayed measurements are fused as if they had arrived in order."""
import estimator_common as est
import vlib


def corrupt(t, r):
    adds = [e for e in t if e["op"] == "add" and e["ok"] and any(f["ups"] for f in e["follow"])]
    if not adds:
        return None
    e = r.choice(adds)
    if r.random() < .5:
        f = r.choice([f for f in e["follow"] if f["ups"]])
        f["ups"].append(f["ups"][0])       # fused twice
        e["ups"].append(f["ups"][0])
    else:
        e["states"][-1][0] += 40           # the state is of another time
    return t


def run(ctx):
    rng = ctx.rng
    x = est.exe()
    ctx.model_check("EstimatorMC.tla", "EstimatorMC.cfg")
    ctx.model_check("EstimatorMC.tla", "EstimatorBroken.cfg", expect_violation="Invariant EachOnce is violated")
    if ctx.thorough:
        ctx.model_check("EstimatorMC.tla", "EstimatorMC5.cfg")
    gen, _ = vlib.tlc_generate("EstimatorGen.tla", "EstimatorGen.cfg")
    ctx.notes["behaviours_generated"] = len(gen)
    rng.shuffle(gen)
    segs = []
    for g in gen[:ctx.pick(2500, 20000)]:
        segs.append(est.scaled(rng, g, [(0, 3), (1, 4), (2, 5)]))
    for k in range(ctx.pick(200, 3000)):
        segs.append(est.random_seg(rng, rng.choice([8, 20, 40, 80, 160])))
    ctx.required_ops = ["begin", "add"]
    ctx.assumptions = ["time stamps are multiples of 10 us; stamps exactly half a time quantum apart may count as equal or not",
                       "the observations of a bundle carry the bundle's time stamp; fix-and-hold measurements have as many elements as the state has ambiguities"]
    ctx.conform("EstimatorTrace.tla", "EstimatorOrder.cfg", x, segs, self_test=corrupt, chunk_events=3000)
