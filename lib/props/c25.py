VARIANT = "merge"


def cfg(n):
    return "SPECIFICATION Spec\nCONSTANTS\n N = %d\nINVARIANTS Folded Truthful\nCHECK_DEADLOCK FALSE\n" % n


def randoms(rng, n):
    ways = ["insert", "owned", "cowowned", "borrowed", "ref", "conv"]
    out = []
    for _ in range(n):
        keys = rng.randint(1, 5)
        nv = rng.choice([2, 4, 9])
        ops = []
        for _ in range(rng.randint(5, 40)):
            m, k = rng.randint(1, 2), rng.randint(1, keys)
            if rng.random() < 0.2:
                ops.append({"op": "entry", "m": m, "k": k})
            else:
                v = []
                for _ in range(rng.choice([0, 1, 1, 2, 3])):
                    x = rng.randint(1, nv)
                    if rng.random() < 0.9 and x in v:
                        continue
                    v.append(x)
                ops.append({"op": rng.choice(ways), "m": m, "k": k, "v": v})
        out.append({"m": "merge", "keys": keys, "ops": ops})
    return out


def huge(rng, n):
    """Maps with hundreds of keys; long values."""
    ways = ["insert", "owned", "cowowned", "borrowed", "ref", "conv"]
    out = []
    for i in range(n):
        keys, nv = [(300, 3), (2, 400), (30, 30)][i % 3]
        ops = []
        for _ in range(500 if keys > 2 else 60):
            m, k = rng.randint(1, 2), rng.randint(1, keys)
            if rng.random() < 0.3:
                ops.append({"op": "entry", "m": m, "k": k})
            else:
                v = rng.sample(range(1, nv + 1), rng.randint(0, min(nv, rng.choice([1, 2, 70, 300]))))
                ops.append({"op": rng.choice(ways), "m": m, "k": k, "v": v})
        for o in ops[-2:] + rng.sample(ops, 3):
            o["look"] = True
        out.append({"m": "merge", "keys": keys, "ops": ops, "quiet": True})
    return out


def run(ctx):
    q = ctx.quick
    beh = ctx.generate("MergeMC", cfg(3 if q else 4), "all short histories; the maps hold the fold of what was stored",
                       cap=4000 if q else 40000)
    ctx.conform([{"m": "merge", "keys": 2, "ops": b} for b in beh], "TraceMerge", "all short histories", variant=VARIANT, shards=8)
    ctx.conform(randoms(ctx.rng(), 1500 if q else 15000), "TraceMerge", "long random histories", variant=VARIANT, shards=8)
    ctx.conform(huge(ctx.rng("huge"), 9 if q else 90), "TraceMerge", "maps with hundreds of keys, long values", variant=VARIANT, shards=8)
