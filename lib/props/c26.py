from props.gramcommon import *


def equal_content(rng, n):
    """Rules and productions whose content is equal, but which are not the
    same."""
    out = []
    for _ in range(n):
        a = rng.randint(2, 4)
        ps = [gram.P(rng.randint(1, 2), [rng.randint(1, 2)] * rng.randint(0, 2), v=5) for _ in range(rng.randint(1, 2))]
        rules = [{"h": h, "p": [dict(p) for p in ps]} for h in range(1, a + 1)]
        for h in range(1, a):
            rules[h - 1]["p"] = rules[h - 1]["p"] + [gram.P(9, [-(h + 1)])]
        if rng.random() < 0.5:
            rules[-1]["p"] = rules[-1]["p"] + [dict(p) for p in ps]
        out.append({"start": 1, "rules": rules, "how": rng.randint(0, 4)})
    return out


def run(ctx):
    rng = ctx.rng()
    q = ctx.quick
    gs = structured(ctx, rng, 1) + randoms(ctx, rng, 800 if q else 5000) + equal_content(rng, 300 if q else 2000)
    gs += overridden(randoms(ctx, rng, 200 if q else 1500), rng) + nullish(ctx, rng, 200)
    gs += extremes(rng, q, 140)
    go(ctx, styled([scn(g, ["identity"]) for g in gs], rng), "structured and random grammars, and ones with equal contents")
