def cfg(n, order, bytype=True, gen=False):
    s = "SPECIFICATION Spec\nCONSTANTS\n N = %d\n ByType = %s\n Order = %d\n" % (n, "TRUE" if bytype else "FALSE", order)
    if not gen:
        s += "INVARIANTS Sorted Lookups\nPROPERTIES Refines\n"
    return s + "CHECK_DEADLOCK FALSE\n"


def randoms(rng, n):
    out = []
    for _ in range(n):
        maps = rng.randint(1, 3)
        keys = rng.choice([2, 4, 8])
        types = rng.choice([[1, 2], [1, 2, 3, 4, 5, 6, 7, 8, 9], [6, 7], [5], [4, 1], [5, 6], [8, 9], [1, 8, 9]])
        ops = []
        for v in range(1, rng.randint(8, 50)):
            r = rng.random()
            m = rng.randint(1, maps)
            if r < 0.55:
                ops.append({"op": "set", "m": m, "t": rng.choice(types), "k": rng.randint(1, keys), "v": v})
            elif r < 0.88 or maps == 1:
                ops.append({"op": "upd", "m": m, "t": rng.choice(types), "k": rng.randint(1, keys), "v": v})
            else:
                ops.append({"op": "merge", "m": m, "from": rng.choice([x for x in range(1, maps + 1) if x != m])})
        out.append({"m": "typemap", "maps": maps, "keys": keys, "ops": ops})
    return out


def huge(rng, n):
    """Maps with hundreds of keys."""
    out = []
    for i in range(n):
        keys = rng.choice([150, 300])
        types = rng.choice([[1], [1, 2, 3, 6, 7], [6, 7], [8, 9]])
        ops, v = [], 0
        for m in (1, 2, 1):
            ks = [(t, k) for t in types for k in range(1, keys + 1) if m == 1 or rng.random() < 0.5]
            rng.shuffle(ks)
            for t, k in ks[:350]:
                v += 1
                ops.append({"op": rng.choice(["set", "set", "upd"]), "m": m, "t": t, "k": k, "v": v})
            ops[-1]["look"] = True
        ops.append({"op": "merge", "m": 1, "from": 2, "look": True})
        ops.append({"op": "set", "m": 2, "t": types[0], "k": 1, "v": v + 1, "look": True})
        ops.append({"op": "merge", "m": 2, "from": 1, "look": True})
        out.append({"m": "typemap", "maps": 2, "keys": keys, "ops": ops, "quiet": True})
    return out


def run(ctx):
    q = ctx.quick
    for order in (1, 2):
        ctx.design("TypeMapMC", cfg(3, order) if q else cfg(4, order), "one sorted sequence of entries behaves as a map per type, order %d" % order)
    ctx.design("TypeMapMC", cfg(3, 1, bytype=False), "comparing keys without their types is refuted", expect="is violated")
    beh = ctx.generate("TypeMapMC", cfg(3 if q else 4, 1, gen=True), "all short histories", cap=4000 if q else 40000)
    ctx.conform([{"m": "typemap", "maps": 2, "keys": 3, "ops": b} for b in beh], "TraceTypeMap", "all short histories", shards=8)
    ctx.conform(randoms(ctx.rng(), 1500 if q else 15000), "TraceTypeMap", "long random histories over nine key types, two of them with one name", shards=8)
    ctx.conform(huge(ctx.rng("huge"), 8 if q else 80), "TraceTypeMap", "maps with hundreds of keys", shards=8)
