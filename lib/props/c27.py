from props.gramcommon import *

VARIANT = "lr"


def seeds(g, rng, n):
    k = nitems(g)
    ts = gram.terminals(g) or [1]
    out = [{"items": [{"i": i, "la": [90]}], "shifts": [rng.randint(0, 9) for _ in range(4)]} for i in starts(g)[:3]]
    for _ in range(n):
        m = rng.randint(1, min(4, k))
        its = rng.sample(range(k), m)
        out.append({"items": [{"i": i, "la": sorted(set(rng.choice(ts + [91, 92]) for _ in range(rng.randint(1, 3))))} for i in its],
                    "shifts": [rng.randint(0, 9) for _ in range(rng.randint(0, 6))]})
    return out


def starts(g):
    """Item numbers of the productions of the start symbol at position 0."""
    out, i = [], 0
    last = {r["h"]: r for r in g["rules"]}
    for h in sorted(last):
        for p in last[h]["p"]:
            if h == g["start"]:
                out.append(i)
            i += len(p["e"]) + 1
    return out


def run(ctx):
    rng = ctx.rng()
    q = ctx.quick
    legs.meaning(ctx, 3, "LR(1) item sets")
    legs.rounds(ctx)
    gs = structured(ctx, rng) + randoms(ctx, rng, 200 if q else 3000) + nullish(ctx, rng, 400 if q else 6000)
    gs += overridden(randoms(ctx, rng, 80 if q else 1000) + nullish(ctx, rng, 80 if q else 1000), rng)
    gs += lines(rng, 60 if q else 1000, 12)
    gs += long_nullish(rng, 80 if q else 1500, 5, 9) + gaps(nullish(ctx, rng, 40 if q else 600), rng)
    gs = [g for g in gs if productive(g) and nitems(g) <= 80]
    gs += [g for g in extremes(rng, q, 50) if productive(g)]
    go(ctx, styled([scn(g, ["lr"], lr=seeds(g, rng, 3)) for g in gs], rng), "structured, random and nullability-rich grammars", variant=VARIANT)
    gs = [g for g in enumerated(ctx, rng) if productive(g)]
    go(ctx, [scn(g, ["lr"], lr=seeds(g, rng, 2)) for g in gs], "small universe enumerated by the specification", variant=VARIANT)
