def wcfg(kind, maxkey, mark="all"):
    return ('SPECIFICATION Spec\nCONSTANTS\n Kind = "%s"\n MaxKey = %d\n Mark = "%s"\nINVARIANTS BfsOk SetsOk SetsGrow\n'
            "PROPERTIES Ends\nCHECK_DEADLOCK FALSE\n") % (kind, maxkey, mark)


def ccfg(maxkey, maxedges):
    return "SPECIFICATION Spec\nCONSTANTS\n MaxKey = %d\n MaxEdges = %d\nINVARIANTS LeastOk\nCHECK_DEADLOCK FALSE\n" % (maxkey, maxedges)


def graph(rng, n):
    kind = rng.random()
    if kind < 0.25:      # a long chain, with shortcuts and ways back
        g = [[i + 2] if i + 1 < n else [] for i in range(n)]
        for _ in range(rng.randint(0, 3)):
            g[rng.randrange(n)].append(rng.randint(1, n))
        return g
    d = rng.choice([0.5, 1, 2, 4])
    return [[rng.randint(1, n) for _ in range(rng.randint(0, round(d * 2)))] for _ in range(n)]


def randoms(rng, n):
    out = []
    for _ in range(n):
        ops = []
        for _ in range(3):
            k = rng.choice([2, 3, 5, 8, 13])
            r = rng.random()
            if r < 0.3:
                k = rng.choice([k, 30])
                ops.append({"op": "bfs", "init": [rng.randint(1, k) for _ in range(rng.choice([0, 1, 1, 2, 3]))], "g": graph(rng, k)})
            elif r < 0.65:
                vals = list(range(1, rng.choice([2, 4, 7])))
                sub = lambda p: [v for v in vals if rng.random() < p]
                g = graph(rng, k)
                edges = [{"f": f + 1, "t": t, "mask": sub(rng.choice([0.5, 0.9, 1])), "add": sub(rng.choice([0, 0, 0.1, 0.4]))}
                         for f, ts in enumerate(g) for t in ts][:25]
                rng.shuffle(edges)
                keys = rng.sample(range(1, k + 1), rng.randint(0, min(3, k)))
                ops.append({"op": "sets", "init": [{"k": x, "v": sub(0.5)} for x in keys], "edges": edges})
            elif r < 0.85:
                g = graph(rng, k)
                edges = [{"f": f + 1, "t": t, "w": rng.choice([0, 1, 1, 2, 5, 50])} for f, ts in enumerate(g) for t in ts][:25]
                rng.shuffle(edges)
                keys = rng.sample(range(1, k + 1), rng.randint(0, min(3, k)))
                ops.append({"op": "dist", "init": [{"k": x, "v": rng.choice([0, 3, 20, 100])} for x in keys], "edges": edges})
            elif r < 0.93:
                f = [rng.randint(max(1, i), k) if rng.random() < 0.9 else rng.randint(1, k) for i in range(1, k + 1)]
                ops.append({"op": "point", "start": rng.randint(1, k), "f": f})
            else:
                ops.append({"op": "loop", "bs": [rng.random() < 0.8 for _ in range(rng.randint(0, 12))]})
        out.append({"m": "work", "ops": ops})
    return out


def chains(rng, n):
    """Chains that need as many rounds as they are long, against the order of
    the keys and with it."""
    out = []
    for _ in range(n):
        k = rng.choice([5, 12, 25, 40])
        order = list(range(1, k + 1))
        how = rng.random()
        if how < 0.4:
            order.reverse()
        elif how < 0.8:
            rng.shuffle(order)
        ed = list(zip(order, order[1:]))
        ops = [
            {"op": "sets", "init": [{"k": order[0], "v": [1, 2]}], "edges": [{"f": f, "t": t, "mask": [1, 2], "add": []} for f, t in ed]},
            {"op": "dist", "init": [{"k": order[0], "v": 1}, {"k": order[k // 2], "v": 10}], "edges": [{"f": f, "t": t, "w": 1} for f, t in ed]},
            {"op": "bfs", "init": [order[0]], "g": [[t for f, t in ed if f == i] for i in range(1, k + 1)]},
            {"op": "point", "start": order[0], "f": [dict(ed).get(i, i) for i in range(1, k + 1)]},
        ]
        # Later values reach what was already there.
        back = {"f": order[-1], "t": order[0], "mask": [3], "add": [3]}
        ops.append({"op": "sets", "init": [{"k": x, "v": []} for x in order[::2]] + [{"k": order[1], "v": [1]}] if k > 1 else [],
                    "edges": [{"f": f, "t": t, "mask": [1, 3], "add": []} for f, t in ed] + [back]})
        out.append({"m": "work", "ops": ops})
    return out


def huge(rng, n):
    """Hundreds of elements: chains, stars, and bundles of values."""
    out = []
    for i in range(n):
        k = rng.choice([130, 258, 300])
        order = list(range(1, k + 1))
        rng.shuffle(order)
        ed = list(zip(order, order[1:]))
        succ = dict(ed)
        star = [[] for _ in range(k)]
        star[0] = order[:-1] if rng.random() < 0.5 else order
        star[order[3] - 1] = star[order[3] - 1] + [order[-1]]
        vals = list(range(1, 280))
        out.append({"m": "work", "ops": [
            {"op": "bfs", "init": [order[0]], "g": [[succ[x]] if x in succ else [] for x in range(1, k + 1)]},
            {"op": "bfs", "init": [1], "g": star},
            {"op": "bfs", "init": order[: k // 2], "g": [[rng.randint(1, k) for _ in range(rng.choice([0, 1, 2]))] for _ in range(k)]},
            {"op": "point", "start": order[0], "f": [succ.get(x, x) for x in range(1, k + 1)]},
            {"op": "loop", "bs": [True] * rng.choice([255, 256, 300]) + [False, True]},
            {"op": "sets", "init": [{"k": 1, "v": vals}, {"k": 2, "v": vals[:-1]}],
             "edges": [{"f": 1, "t": 2, "mask": vals, "add": []}, {"f": 2, "t": 3, "mask": vals[1:], "add": []},
                       {"f": 3, "t": 1, "mask": vals, "add": [500]}]},
        ]})
        k = rng.choice([70, 130])
        order = list(range(1, k + 1))
        if rng.random() < 0.5:
            order.reverse()
        ed = list(zip(order, order[1:]))
        out[-1]["ops"] += [
            {"op": "sets", "init": [{"k": order[0], "v": [1]}], "edges": [{"f": f, "t": t, "mask": [1], "add": []} for f, t in ed]},
            {"op": "dist", "init": [{"k": order[0], "v": 1}], "edges": [{"f": f, "t": t, "w": 1} for f, t in ed]},
        ]
    return out


def run(ctx):
    q = ctx.quick
    ctx.design("WorkMC", wcfg("bfs", 3), "search in waves, all graphs of 3 elements")
    ctx.design("WorkMC", wcfg("sets", 2), "propagation in waves, all problems with 2 keys and 2 edges")
    if not q:
        ctx.design("WorkMC", wcfg("sets", 3), "propagation in waves, all problems with 3 keys and 2 edges")
    ctx.design("WorkMC", wcfg("sets", 2, "old"), "not noting new keys is refuted", expect="is violated")
    ctx.design("WorkMC", wcfg("bfs", 3, "late"), "expanding twice is refuted", expect="is violated")
    beh = ctx.generate("ClosureMC", ccfg(3, 1 if q else 2), "all small problems; the definitions give the least solutions")
    scns = [{"m": "work", "ops": beh[i:i + 10]} for i in range(0, len(beh), 10)]
    ctx.conform(scns, "TraceWork", "all small problems", shards=8)
    rng = ctx.rng()
    ctx.conform(randoms(rng, 1500 if q else 20000) + chains(rng, 60 if q else 600), "TraceWork", "random problems and long chains", shards=8)
    ctx.conform(huge(ctx.rng("huge"), 4 if q else 30), "TraceWork", "problems with hundreds of elements", shards=8)
