import ring_common
def run(ctx):
    ctx.assumptions = ["an element type that registers its constructions and destructions stands for all types"]
    ring_common.run(ctx, "life")
