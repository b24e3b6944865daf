from props.gramcommon import *


def small(g, lim):
    """Not too many variants."""
    null = set()
    for _ in g["rules"]:
        null |= {r["h"] for r in g["rules"] for p in r["p"] if all(-x in null for x in p["e"])}
    return all(sum(-x in null for x in p["e"]) <= lim for r in g["rules"] for p in r["p"])


def run(ctx):
    rng = ctx.rng()
    q = ctx.quick
    legs.meaning(ctx, 2, "removal of empty productions")
    gs = structured(ctx, rng) + randoms(ctx, rng, 200 if q else 3000, keys="head") + nullish(ctx, rng, 500 if q else 8000)
    gs += lines(rng, 60 if q else 1000) + [renamed(g, rng, 2) for g in nullish(ctx, rng, 150 if q else 2500)]
    gs += overridden(randoms(ctx, rng, 80 if q else 1000) + nullish(ctx, rng, 80 if q else 1000), rng)
    gs = [g for g in gs if small(g, 6)]
    gs += [g for g in extremes(rng, q) if small(g, 9)]
    gs += [g for g in long_nullish(rng, 40 if q else 600, 4, 8) if small(g, 8)]
    go(ctx, [scn(g, ["nonnull"]) for g in gs], "structured, random and nullability-rich grammars")
    go(ctx, [scn(g, ["nonnull"]) for g in enumerated(ctx, rng, names=0.5)], "small universe enumerated by the specification")
