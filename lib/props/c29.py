def thing(rng, depth, size):
    k = rng.choice(["int", "str"]) if depth == 0 or rng.random() < 0.2 else rng.choice(["list", "set", "tuple", "struct"])
    x = {"k": k, "v": rng.choice([0, 1, -3, 42, 123456]), "n": "", "f": [], "c": [], "s": rng.randint(0, 1)}
    if k == "str":
        x["n"] = rng.choice(["", "a", "a b", "[1, 2]", "x: 1", "long " * 30])
    if k in ("tuple", "struct"):
        x["n"] = rng.choice(["Pt", "St", "A b", "" if k == "tuple" else "Q"])
    if k not in ("int", "str"):
        n = rng.randint(0, size)
        x["c"] = [thing(rng, depth - 1, max(1, size // 2)) for _ in range(n)]
        if n > 2 and rng.random() < 0.4:
            x["c"][-1] = x["c"][0]
        if k == "struct":
            x["f"] = [rng.choice(["f", "g", "field", "f"]) for _ in range(n)]
        if k == "tuple" and n == 0 and not x["n"]:
            x["n"] = "E"
    return x


def shape(x, rng):
    return dict(x, s=rng.randint(0, 1), c=[shape(y, rng) for y in x["c"]], f=list(x["f"]))


CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def run(ctx):
    q = ctx.quick
    rng = ctx.rng()
    things = ctx.generate("ShowsMC", CFG, "all small things; their texts tell them apart", cap=1500 if q else None)
    ctx.conform([{"m": "show", "item": shape(x, rng)} for x in things], "TraceShows", "all small things", shards=8)
    xs = [thing(rng, rng.randint(1, 4), rng.choice([3, 5, 8])) for _ in range(400 if q else 6000)]
    xs += [dict(thing(rng, 1, 1), k=k, n="W", c=[thing(rng, 0, 0) for _ in range(n)], f=["f%d" % i for i in range(n)])
           for k in ("list", "set", "tuple", "struct") for n in (17, 33, 65, 130, 260, 1030) + (() if q else (520, 4100))]
    ctx.conform([{"m": "show", "item": x} for x in xs], "TraceShows", "large and deep things", shards=8)
