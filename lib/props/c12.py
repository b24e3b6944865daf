def cfg(np, nc, deps, nq, unmark=True, marks=True, live=True):
    b = lambda x: "TRUE" if x else "FALSE"
    s = "SPECIFICATION Spec\nCONSTANTS\n NP = %d\n NC = %d\n MaxDeps = %d\n NQ = %d\n Unmark = %s\n Marks = %s\nINVARIANTS Allowed Bounded CacheOk\n" % (
        np, nc, deps, nq, b(unmark), b(marks))
    if live:
        s += "PROPERTIES Ends\n"
    return s + "CHECK_DEADLOCK FALSE\n"


def randoms(rng, n, most=10):
    out = []
    for _ in range(n):
        np = rng.randint(1, most)
        nc = rng.choice([1, 1, 2, 3])
        cyclic = rng.random() < 0.25
        pf = rng.choice([0, 0.1, 0.4])
        ps = []
        for i in range(1, np + 1):
            fail = rng.choice(["before", "after", "after", "swallow"]) if rng.random() < pf else rng.choice(["no"] * 6 + ["swallow"])
            deps = []
            if fail != "before":
                for _ in range(rng.choice([0, 1, 1, 2, 3, 5])):
                    if cyclic and rng.random() < 0.3:
                        deps.append([rng.choice([0, 0, 1]) if nc > 1 else 0, rng.randint(1, np)])
                    elif i > 1:
                        deps.append([rng.choice([0, 0, 0, 1]) if nc > 1 else 0, rng.randint(1, i - 1)])
            ps.append({"deps": deps, "fail": fail})
        # Numbers of passes have no order of their own.
        perm = list(range(1, np + 1))
        rng.shuffle(perm)
        qs = [None] * np
        for i, p in enumerate(ps):
            p["deps"] = [[o, perm[d - 1]] for o, d in p["deps"]]
            qs[perm[i] - 1] = p
        starts = [rng.randint(1, 4) for _ in range(nc)]
        out.append({"m": "pass", "passes": qs, "starts": starts, "twins": rng.choice([0, 0, 2, 6]), "shape": rng.choice([0, 1, 2, 3, 3]),
                    "q": [[rng.randint(1, nc), rng.randint(1, np)] for _ in range(rng.choice([1, 2, 4, 8]))]})
    return out


def deep(rng, n):
    """Chains of analyses, dense and failing ones, many queries."""
    out = randoms(rng, n // 2, 48)
    for s in out:
        s["q"] += [[rng.randint(1, len(s["starts"])), rng.randint(1, len(s["passes"]))] for _ in range(20)]
    for _ in range(n - n // 2):
        np = rng.randint(30, 48)
        nc = rng.choice([1, 2])
        order = list(range(1, np + 1))
        rng.shuffle(order)
        ps = [None] * np
        cut = rng.randint(1, np)
        for i, x in enumerate(order):
            deps = [[rng.randint(0, 1) if nc > 1 and rng.random() < 0.2 else 0, order[i + 1]]] if i + 1 < np else []
            if rng.random() < 0.2 and i + 2 < np:
                deps.append([0, rng.choice(order[i + 2:])])
            ps[x - 1] = {"deps": deps, "fail": rng.choice(["no"] * 30 + ["swallow", "after"])}
        if rng.random() < 0.3:
            ps[order[-1] - 1]["deps"] = [[0, order[cut - 1]]]
        qs = [[rng.randint(1, nc), rng.choice(order)] for _ in range(rng.choice([1, 3]))]
        out.append({"m": "pass", "passes": ps, "shape": rng.choice([0, 1, 2, 3, 3]), "starts": [rng.randint(1, 4) for _ in range(nc)], "q": qs + [[1, order[0]]] * 2})
    return out


def in_turn(rng, n):
    """Contexts that live one after the other, each grammar where the one
    before was."""
    out = []
    for s in randoms(rng, n):
        nc = rng.randint(2, 4)
        s["starts"] = [rng.randint(1, 4) for _ in range(nc)]
        s["passes"] = [dict(p, deps=[[0, d] for _, d in p["deps"]]) for p in s["passes"]]
        s["q"] = [[c, rng.randint(1, len(s["passes"]))] for c in range(1, nc + 1) for _ in range(rng.choice([1, 2, 3]))]
        s["seq"] = True
        out.append(s)
    return out


def run(ctx):
    q = ctx.quick
    g1 = ctx.generate("PassMC", cfg(2, 1, 2, 3), "all sets of two analyses; cache with markers against the specification",
                      cap=3000 if q else 20000)
    g2 = ctx.generate("PassMC", cfg(2, 2, 1, 2), "all sets of two analyses in two contexts", cap=2000 if q else 10000)
    g = g1 + g2
    if not q:
        g += ctx.generate("PassMC", cfg(3, 1, 1, 3, live=False), "all sets of three analyses", cap=20000)
    ctx.design("PassMC", cfg(2, 1, 1, 2, unmark=False), "keeping the marker of a failed analysis is refuted", expect="is violated")
    ctx.design("PassMC", cfg(2, 1, 1, 2, marks=False), "no markers is refuted", expect="is violated")
    ctx.conform([dict(s, m="pass", twins=6 * (i % 2), shape=i % 4) for i, s in enumerate(g)], "TracePass", "all small configurations", shards=8)
    ctx.conform(randoms(ctx.rng(), 2000 if q else 30000), "TracePass", "random configurations of up to ten analyses", shards=8)
    ctx.conform(deep(ctx.rng("deep"), 150 if q else 3000), "TracePass", "up to 48 analyses, long chains", shards=8)
    ctx.conform(in_turn(ctx.rng("turn"), 500 if q else 8000), "TracePass", "contexts that live one after the other", shards=8)
