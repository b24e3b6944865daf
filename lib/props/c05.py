from props.gramcommon import *


def run(ctx):
    rng = ctx.rng()
    q = ctx.quick
    gs = malformed(rng, 1200 if q else 20000) + chains(rng, 200 if q else 3000) + structured(ctx, rng, 1)
    gs += lines(rng, 60 if q else 600) + same_keys(randoms(ctx, rng, 60 if q else 600), rng)
    gs += overridden(randoms(ctx, rng, 150 if q else 2000), rng) + wide(rng, 8 if q else 60)
    legs.builder(ctx)
    go(ctx, [scn(dict(g, how=rng.randint(0, 4)), []) for g in legs.descriptions(ctx)], "all small sequences of builder calls")
    gs += extremes(rng, q)
    go(ctx, [scn(g, []) for g in gs], "malformed, overridden, chained and well-formed descriptions")

