def cfg(n, allvalues=True, gen=False):
    s = "SPECIFICATION Spec\nCONSTANTS\n N = %d\n AllValues = %s\n" % (n, "TRUE" if allvalues else "FALSE")
    if not gen:
        s += "PROPERTIES Refines\n"
    return s + "CHECK_DEADLOCK FALSE\n"


def randoms(rng, n):
    out = []
    for _ in range(n):
        ops, maps = [], 0
        nk = rng.randint(2, 6)
        nv = rng.choice([2, 3, 6, 20])
        for _ in range(rng.randint(5, 40)):
            r = rng.random()
            k, v = rng.randint(1, nk), rng.randint(1, nv)
            vs = [rng.randint(1, nv) for _ in range(rng.choice([0, 1, 2, 2, 3, 5]))]
            kvs = [[rng.randint(1, nk), rng.randint(1, nv)] for _ in range(rng.randint(0, 8))]
            m = rng.randint(1, maps) if maps else 0
            if not maps or (r < 0.08 and maps < 3):
                ops.append({"op": "new"} if rng.random() < 0.5 else {"op": "seed", "kvs": kvs})
                maps += 1
            elif r < 0.3:
                ops.append({"op": "insert", "m": m, "k": k, "v": v})
            elif r < 0.6:
                ops.append({"op": "iter", "m": m, "k": k, "vs": vs})
            elif r < 0.85:
                ops.append({"op": "copy", "m": m, "k": k, "src": rng.randint(1, nk)})
            elif r < 0.9:
                ops.append({"op": "into", "m": m})
            elif r < 0.95:
                ops.append({"op": "pairs", "kvs": kvs})
            else:
                ops.append({"op": "changes", "bs": [rng.random() < 0.3 for _ in range(rng.randint(0, 5))]})
        out.append({"m": "collect", "ops": ops, "probe": nk})
    return out


def huge(rng, n):
    """Maps with hundreds of keys and of values of one key."""
    out = []
    for i in range(n):
        nk, nv = [(300, 3), (3, 600), (40, 40)][i % 3]
        pair = lambda: [rng.randint(1, nk), rng.randint(1, nv)]
        ops = [{"op": "seed", "kvs": [pair() for _ in range(400)]}, {"op": "new"}]
        for _ in range(60):
            m = rng.randint(1, 2)
            k, v = pair()
            r = rng.random()
            if r < 0.3:
                ops.append({"op": "insert", "m": m, "k": k, "v": v})
            elif r < 0.6:
                vs = [rng.randint(1, nv) for _ in range(rng.choice([1, 70, 300]))]
                if rng.random() < 0.5:
                    vs += vs
                    rng.shuffle(vs)
                ops.append({"op": "iter", "m": m, "k": k, "vs": vs})
            elif r < 0.9:
                ops.append({"op": "copy", "m": m, "k": k, "src": rng.randint(1, nk)})
            else:
                ops.append({"op": "pairs", "kvs": [pair() for _ in range(300)]})
        # All values that are there already, but one or none.
        for m in (1, 2):
            ops += [{"op": "iter", "m": m, "k": 1, "vs": list(range(1, nv + 1))},
                    {"op": "iter", "m": m, "k": 1, "vs": list(range(1, nv + 1))},
                    {"op": "iter", "m": m, "k": 1, "vs": list(range(nv + rng.randint(0, 1), 0, -1))}]
        for o in ops[-3:] + rng.sample(ops, 4):
            o["look"] = True
        ops.append({"op": "changes", "bs": [False] * rng.choice([64, 256, 300]) + [rng.random() < 0.5] + [False] * 3})
        out.append({"m": "collect", "ops": ops, "probe": nk, "quiet": True})
    return out


def run(ctx):
    q = ctx.quick
    ctx.design("CollectMC", cfg(4 if q else 5), "keys with sets behave as relations, with the reports")
    ctx.design("CollectMC", cfg(4, allvalues=False), "a report of the last value only is refuted", expect="is violated")
    beh = ctx.generate("CollectMC", cfg(4 if q else 5, gen=True), "all short histories", cap=4000 if q else 40000)
    ctx.conform([{"m": "collect", "ops": b, "probe": 3} for b in beh], "TraceCollect", "all short histories", shards=8)
    ctx.conform(randoms(ctx.rng(), 1500 if q else 15000), "TraceCollect", "long random histories", shards=8)
    ctx.conform(huge(ctx.rng("huge"), 9 if q else 90), "TraceCollect", "maps with hundreds of keys and values", shards=8)
