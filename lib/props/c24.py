from props.gramcommon import *


def run(ctx):
    rng = ctx.rng()
    q = ctx.quick
    gs = structured(ctx, rng, 1) + randoms(ctx, rng, 800 if q else 6000) + nullish(ctx, rng, 200)
    gs += overridden(randoms(ctx, rng, 60 if q else 600), rng) + wide(rng, 25 if q else 200)
    gs += extremes(rng, q)
    go(ctx, [scn(g, ["pretty"] + ["debug"] * (i % 3 == 0 or i >= len(gs) - 40)) for i, g in enumerate(gs)], "structured, random and wide grammars")
