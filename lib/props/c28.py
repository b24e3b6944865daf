import random

CFG = "SPECIFICATION Spec\nCONSTANTS\n N = %d\n Leaves = %d\nINVARIANTS Determined Orderable\nCHECK_DEADLOCK FALSE\n"


def tree(rng, depth):
    n = rng.choice([0, 0, 1, 2, 3]) if depth else 0
    names = sorted(rng.sample(range(1, 12), n))
    d = [rng.randint(1, 3), n]
    for x in names:
        d += [x] + value(rng, depth - 1)
    return d


def value(rng, depth):
    return [1] + tree(rng, depth) if depth > 0 and rng.random() < 0.6 else [0, rng.choice([1, 2, -5, 1 << 30])]


def alike(rng, mk, n, mix=False):
    """Values of which many are the same, or differ in one place only."""
    out = [mk()]
    while len(out) < n:
        v = list(rng.choice(out))
        r = rng.random()
        if r < (0.2 if mix else 0.5):
            v = mk()
        elif mix and r < 0.8:
            i = rng.randrange(len(v))
            v[i] = mk()[i]
        out.append(v)
    return out


def vary_tree(rng, d):
    """The same tree with one leaf or action changed."""
    spots, i = [], 0

    def node(i):
        spots.append((i, 3))
        n = d[i + 1]
        i += 2
        for _ in range(n):
            i += 1
            if d[i] == 0:
                spots.append((i + 1, 0))
                i += 2
            else:
                i = node(i + 1)
        return i
    node(0)
    at, k = rng.choice(spots)
    out = list(d)
    out[at] = rng.randint(1, 3) if k else rng.choice([1, 2, 3, 9])
    return out


def handles(rng, n):
    out = []
    for _ in range(n):
        trees = []
        for _ in range(rng.randint(1, 3)):
            alts = []
            for i in range(rng.randint(2, 6)):
                if i == 0 or rng.random() < 0.5:
                    alts.append([0, rng.randint(1, 2), rng.randint(1, 2)])
                else:
                    alts.append([1, rng.randint(1, 2)] + [rng.randint(1, i) for _ in range(rng.randint(0, 3))])
            trees.append(alts)
        out.append({"m": "values", "kind": "handles", "trees": trees})
    return out


def run(ctx):
    q = ctx.quick
    ctx.design("ValuesMC", CFG % (3, 2), "the requirement can be met, and parts determine values")
    scns = []
    rng = ctx.rng()
    for b in ctx.generate("ValuesMC", CFG % (4 if q else 6, 2 if q else 3), "all values of a small universe", cap=None):
        vs = b["vals"]
        kind = b["kind"]
        rng.shuffle(vs)
        step = 18
        chunks = [vs[i:i + step] for i in range(0, len(vs), step)]
        # Any two of them meet.
        for i, a in enumerate(chunks):
            for c in chunks[i:]:
                part = a + (c if c is not a else a[:3])
                for ty in (0, 1, 2):
                    scns.append({"m": "values", "kind": kind, "ty": ty, "vals": part})
    ctx.conform(scns, "TraceValues", "all pairs of values of a small universe", shards=8)
    scns = []
    big = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13]
    n = 30 if q else 300
    for ty in (0, 1, 2):
        ints = big if ty else big + [-1, -7, 1 << 30, (1 << 30) + 1]
        one = lambda: rng.choice(ints)
        for _ in range(n):
            for kind, mk in (("term", lambda: [one()]), ("nonterm", lambda: [one()]),
                             ("elem", lambda: [rng.randint(0, 1), one()]),
                             ("prodelem", lambda: [rng.choice([0] + big), rng.randint(0, 1), one()]),
                             ("streamterm", lambda: rng.choice([[0, 0], [1, one()], [1, one()]])),
                             ("startnt", lambda: rng.choice([[0, 0], [1, one()], [1, one()]])),
                             ("startkey", lambda: rng.choice([[0, 0], [1, one()], [1, one()]])),
                             ("prodkey", lambda: [one(), one()])):
                scns.append({"m": "values", "kind": kind, "ty": ty, "vals": alike(rng, mk, 12, kind in ("elem", "prodelem", "prodkey"))})
            # An element without a name, and with every name there is.
            e = [rng.randint(0, 1), one()]
            scns.append({"m": "values", "kind": "prodelem", "ty": ty, "vals": rng.sample([[i] + e for i in range(14)], 14)})
            ts = [tree(rng, rng.randint(0, 3)) for _ in range(3)]
            while len(ts) < 14:
                t = rng.choice(ts)
                ts.append(rng.choice([list(t), vary_tree(rng, t), vary_tree(rng, t), tree(rng, 2)]))
            scns.append({"m": "values", "kind": "node", "ty": ty, "vals": ts})
            vs = [[1] + t for t in ts[:9]] + [[0, 1], [0, 2], [0, -9]]
            scns.append({"m": "values", "kind": "value", "ty": ty, "vals": vs})
    ctx.conform(scns, "TraceValues", "random values, many of them alike", shards=8)
    ctx.conform(handles(rng, 150 if q else 2000), "TraceValues", "handles to forests, however obtained", shards=8)
