from props.gramcommon import *


def run(ctx):
    rng = ctx.rng()
    legs.meaning(ctx, 1, "nullability")
    legs.rounds(ctx)
    gs = structured(ctx, rng) + randoms(ctx, rng, 150 if ctx.quick else 2000) + nullish(ctx, rng, 400 if ctx.quick else 5000) + lines(rng, 150 if ctx.quick else 2000)
    q = ctx.quick
    gs += overridden(randoms(ctx, rng, 80 if q else 1000) + nullish(ctx, rng, 80 if q else 1000), rng)
    gs += extremes(rng, ctx.quick)
    gs += long_nullish(rng, 80 if q else 1500) + gaps(nullish(ctx, rng, 40 if q else 500) + lines(rng, 20 if q else 300), rng)
    go(ctx, styled([scn(g, ["nullable"]) for g in gs], rng), "structured, random and nullability-rich grammars")
    go(ctx, [scn(g, ["nullable"]) for g in enumerated(ctx, rng, names=0.5)], "small universe enumerated by the specification")
