from props.gramcommon import *


def run(ctx):
    rng = ctx.rng()
    q = ctx.quick
    gs = structured(ctx, rng, 1) + randoms(ctx, rng, 300 if q else 4000)
    gs += overridden(randoms(ctx, rng, 200 if q else 3000), rng) + wide(rng, 10 if q else 100) + nullish(ctx, rng, 60)
    gs += same_keys(randoms(ctx, rng, 80 if q else 1000), rng) + lines(rng, 20 if q else 300)
    gs += [renamed(g, rng, 2) for g in randoms(ctx, rng, 60 if q else 1000)]
    gs += extremes(rng, q)
    gs += gaps(randoms(ctx, rng, 40 if q else 500) + wide(rng, 6 if q else 60, 30) + lines(rng, 20 if q else 200), rng)
    go(ctx, styled([scn(g, ["read"]) for g in gs], rng), "structured, random, overridden and wide grammars")
