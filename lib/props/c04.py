import gram


def scenarios(ctx, n, most=8, limit=60, tag="share"):
    rng = ctx.rng(tag)
    fam = sorted(gram.families().items())
    out = []
    while len(out) < n:
        gs = []
        for _ in range(rng.randint(1, 3)):
            if rng.random() < 0.6:
                g = gram.rename(rng.choice(fam)[1], rng)
            else:
                g = gram.random_grammar(rng, maxlen=3, keys=rng.choice(["head", "same"]))
            gs.append(g)
        ops = []
        nroots = 0
        for _ in range(rng.randint(3, most)):
            r = rng.random()
            if r < 0.65 or nroots == 0:
                if ops and rng.random() < 0.3 and any(o["o"] == "parse" for o in ops):
                    op = dict(rng.choice([o for o in ops if o["o"] == "parse"]))  # the same parse again
                else:
                    i = rng.randrange(len(gs))
                    g = gs[i]
                    w = gram.sample_word(g, rng, rng.randint(0, 5 if limit <= 60 else 12))
                    if w is None or rng.random() < 0.15:
                        w = [rng.choice(gram.terminals(g) or [1]) for _ in range(rng.randint(0, 4))]
                    sz = gram.size(g, w, limit)
                    if sz > limit:
                        continue
                    op = {"o": "parse", "g": i + 1, "w": w, "v": gram.values(w, rng), "acc": sz > 0}
                ops.append(op)
                nroots += op["acc"]
            elif r < 0.72:
                ops.append({"o": "graft", "n": rng.randint(0, 20), "m": rng.randint(0, 20)})
            elif r < 0.82:
                ops.append({"o": "leaf", "t": rng.randint(1, 3), "v": rng.choice([1, 7, 100, 101])})
                nroots += 1
            else:
                # Keys that parses use too.
                g = rng.choice(gs)
                k = rng.choice([p["k"] for r_ in g["rules"] for p in r_["p"]])
                ops.append({"o": "branch", "k": k, "c": [rng.randint(0, 50) for _ in range(rng.randint(0, 3))]})
                nroots += 1
        for o in ops:
            o.pop("acc", None)
        # A branch before the first root would have nothing to point to.
        if any(o["o"] == "branch" for o in ops) and ops[0]["o"] == "parse":
            ops.insert(0, {"o": "leaf", "t": 1, "v": 7})
        out.append({"m": "share", "gs": gs, "ops": ops})
    return out


def at_once(ctx, n):
    """Parses by several threads, all at one time in one tree."""
    out = []
    for s in scenarios(ctx, n * 2, tag="once"):
        ps = [o for o in s["ops"] if o["o"] == "parse"]
        if len(ps) >= 2 and len(out) < n:
            out.append(dict(s, ops=ps + ps[:2], threads=True))
    return out


def run(ctx):
    from props import parsecommon as pc
    beh = design(ctx)
    ss = gram.G(1, [(1, [[-1, -1], [1]])])
    ctx.conform([{"m": "share", "gs": [ss], "ops": [{"o": "parse", "g": 1, "w": [1] * len(w), "v": w} for w in b]} for b in beh],
                "TraceShare", "the parses of the design", shards=8)
    ctx.conform(scenarios(ctx, 400 if ctx.quick else 4000), "TraceShare", "parses and hand-built nodes in one tree", shards=8)
    ctx.conform(scenarios(ctx, 60 if ctx.quick else 600, most=25, tag="many"), "TraceShare", "many parses in one tree", shards=8)
    ctx.conform(at_once(ctx, 150 if ctx.quick else 1500), "TraceShare", "parses at one time in one tree", shards=4, stall=60)
    late = scenarios(ctx, 6 if ctx.quick else 60, tag="late")
    for i, s in enumerate(late):
        s["before"] = [250, 32760, 65530, 66000, 131066][i % 5]
    ctx.conform(late, "TraceShare", "parses in a tree that holds much already", shards=8)
    ctx.conform(scenarios(ctx, 40 if ctx.quick else 400, most=5, limit=400, tag="large"), "TraceShare", "larger parses in one tree", shards=8)


def cfg(n, l, vals, reuse):
    return ('SPECIFICATION Spec\nCONSTANTS\n N = %d\n MaxLen = %d\n Vals = %d\n Reuse = "%s"\nINVARIANTS Undisturbed\n'
            "CHECK_DEADLOCK FALSE\n") % (n, l, vals, reuse)


def design(ctx):
    q = ctx.quick
    beh = ctx.generate("ShareMC", cfg(2, 3, 2, "none") if q else cfg(3, 4, 1, "none"), "parses in one store, all nodes new")
    for reuse in ("content", "leaf"):
        ctx.design("ShareMC", cfg(2, 3, 2, reuse) if q else cfg(3, 4, 1, reuse), "parses in one store, reuse of nodes: " + reuse)
    ctx.design("ShareMC", cfg(2, 3, 2, "span"), "reuse of nodes by span is refuted", expect="is violated")
    return beh
