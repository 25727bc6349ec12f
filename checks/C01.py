import ring_common
def run(ctx):
    ctx.assumptions = ["sizes 1..7, 29 and 99 stand for all sizes", "element types: self-checking value"]
    ring_common.run(ctx, "view")
