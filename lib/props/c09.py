from props.gramcommon import *


def run(ctx):
    rng = ctx.rng()
    q = ctx.quick
    legs.meaning(ctx, 1, "first sets")
    legs.rounds(ctx)
    gs = structured(ctx, rng) + randoms(ctx, rng, 250 if q else 3000) + nullish(ctx, rng, 500 if q else 8000)
    gs += lines(rng, 150 if q else 2500)
    gs += wide(rng, 6 if q else 40, 30)
    ops = lambda: rng.choice([["firsts"], ["nullable", "firsts"], ["firsts", "firsts0", "nullable", "firsts"]])
    gs += overridden(randoms(ctx, rng, 80 if q else 1000) + nullish(ctx, rng, 80 if q else 1000), rng)
    gs += extremes(rng, q, 90)
    gs += long_nullish(rng, 80 if q else 1500) + gaps(nullish(ctx, rng, 40 if q else 500) + lines(rng, 20 if q else 300), rng)
    go(ctx, styled([scn(g, [o for o in ops() if o != "nullable"]) for g in gs], rng), "structured, random and nullability-rich grammars")
    go(ctx, [scn(g, ["firsts"]) for g in enumerated(ctx, rng)], "small universe enumerated by the specification")
