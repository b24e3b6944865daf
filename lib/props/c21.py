from props.gramcommon import *
from props.c26 import equal_content


def run(ctx):
    rng = ctx.rng()
    q = ctx.quick
    gs = structured(ctx, rng, 1) + randoms(ctx, rng, 500 if q else 4000) + equal_content(rng, 120 if q else 800)
    gs += nullish(ctx, rng, 200 if q else 2000)
    gs += overridden(randoms(ctx, rng, 60 if q else 600), rng)
    out = []
    gs = [g for g in gs if nitems(g) <= 120] + extremes(rng, q, 90)
    for g in gs:
        n = nitems(g)
        syms = list(range(1, 4)) + [-h for h in range(1, min(top(g), 40) + 2)]
        k = min(n, 16)
        cmp_ = list(range(n)) if n <= 14 else [rng.randrange(n) for _ in range(14)]
        sets = [[], [rng.randrange(n)]] + [[rng.randrange(n) for _ in range(rng.randint(1, k))] for _ in range(4)]
        sets.append(list(sets[-1])[::-1])
        sets.append(list(range(n)))
        out.append(scn(g, ["items"], probe_syms=syms, cmp=cmp_, sets=sets))
    go(ctx, styled(out, rng), "all items of structured and random grammars, sets of them")
