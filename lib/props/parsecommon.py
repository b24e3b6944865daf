import gram

LONG = {  # families whose chart stays small: long inputs are affordable
    "astar_left": 260, "astar_right": 120, "aplus_left": 260, "anbn": 120, "expr": 120, "lists": 100,
    "even": 150, "mod3": 150, "anban": 80, "many_prods": 12, "mutual": 100, "unary_chain": 60,
}
DEEP = {"ss_a": 9, "s_ss_sss": 7, "expr_amb": 13, "dangling": 14, "ss_a_eps": 6, "split3": 6, "aaa_splits": 6,
        "pal": 14, "sss_a": 9, "jay": 6, "null_deep": 6}

def scenarios(ctx, nrand, ninp, forest):
    """Structured families, several numberings each, and random grammars."""
    rng = ctx.rng("parse")
    out = []
    fam = gram.families()
    for name, g in sorted(fam.items()):
        for rep in range(1 if ctx.quick else 4):
            g2 = g if rep == 0 else gram.rename(g, rng)
            out.append({"m": "parse", "g": g2, "inputs": gram.inputs(g2, rng, ninp, 6 if name not in ("cyc_eps",) else 4)})
        if name in LONG:
            n = LONG[name] if ctx.quick and not forest else LONG[name]
            ws = []
            for _ in range(60):
                w = gram.sample_word(g, rng, n)
                if w is not None:
                    ws.append(w)
            ws.sort(key=len)
            w = ws[-1]
            ts = gram.terminals(g)
            ins = [w, w[:-1], w + [ts[0]], gram.mutate(w, ts, rng)]
            for w in (ins if not ctx.quick else ins[:2]):
                out.append({"m": "parse", "g": g, "inputs": [{"w": w, "v": gram.values(w, rng, rng.choice([0, 3, 4]))}]})
        if name in DEEP:
            n = DEEP[name]
            ws = {tuple(w) for w in (gram.sample_word(g, rng, n) for _ in range(80)) if w is not None}
            ws = sorted(ws, key=len)[-2:]
            out.append({"m": "parse", "g": g, "inputs": [{"w": list(w), "v": gram.values(w, rng)} for w in ws]})
    for i in range(nrand):
        big = rng.random() < 0.1
        g = gram.random_grammar(rng, nnt=rng.randint(5, 8) if big else None, maxlen=rng.choice([2, 3, 4]), keys="mix")
        out.append({"m": "parse", "g": g, "inputs": gram.inputs(g, rng, ninp, rng.choice([4, 5, 6]))})
    for i in range(nrand // 3):
        g = gram.alike(rng)
        out.append({"m": "parse", "g": g, "inputs": gram.inputs(g, rng, ninp, 14)})
    for i in range(1 if ctx.quick else 5):
        for name, g, ws in gram.extremes(rng, 1.0 if not forest or not ctx.quick else 0.95):
            if forest and name == "long list":
                ws = [w[len(w) // 2:] for w in ws]
            out.append({"m": "parse", "g": g, "big": True, "inputs": [{"w": w, "v": gram.values(w, rng)} for w in ws]})
    if forest:
        # Forests that are too big to be judged in reasonable time.
        lim = 500 if ctx.quick else 4000
        for s in out:
            s["inputs"] = s["inputs"] if s.pop("big", False) else [i for i in s["inputs"] if gram.size(s["g"], i["w"], lim) <= lim]
        out = [s for s in out if s["inputs"]]
    return out


def long_scenarios(ctx, forest):
    """Linear grammars with inputs of up to thousands of tokens."""
    rng = ctx.rng("long")
    out = []
    # Sizes beyond which counters of some width, or tables of some size, end.
    if forest:
        left = [1100, 2100, 4200] if ctx.quick else [1100] * 6 + [2100] * 6 + [4200] * 4 + [8300] * 2
        right = [40, 70] if ctx.quick else [40] * 6 + [70] * 6
    else:
        left = [1100, 4200, 9000] if ctx.quick else [1100] * 6 + [4200] * 4 + [9000] * 2 + [17000]
        right = [40, 70] if ctx.quick else [40] * 6 + [70] * 6
    def add(side, n):
        g = gram.linear(rng)
        w = gram.long_word(g, rng, n)
        # Once in a while with a foreign token, or another one.
        ws = [w]
        if n <= 9000:
            ws += [w[1:], w[:-1], gram.mutate(w, gram.terminals(g), rng)]
        elif not ctx.quick:
            i = rng.randrange(len(w))
            ws += [w[:i] + w[i + 1:], w[:-1]]
        if side == "right":
            for r in g["rules"]:
                for p in r["p"]:
                    p["e"].reverse()
            ws = [x[::-1] for x in ws]
        for x in ws:
            out.append({"m": "parse", "g": g, "side": side, "inputs": [{"w": x, "v": gram.values(x, rng, rng.choice([0, 3, 4]))}]})
    for n in left:
        add("left", n)
    for n in right:
        add("right", n)
    # What comes late is not what came early.
    for n in ([4200] if forest else [66000]) if ctx.quick else ([4200, 9000] if forest else [17000, 66000]):
        g = gram.rename(gram.G(1, [(1, [[-2, 3]]), (2, [[-2, -4], [-3, 6, -4]]), (3, [[-3, 1], []]), (4, [[2, 4], [2, 5]])]), rng)
        w = [1] * rng.randint(1100, 1200) + [6]
        while len(w) < n:
            w += [2, rng.choice([4, 5])]
        for x in [w + [3]] + ([] if ctx.quick else [w + [2, 3], w]):
            out.append({"m": "parse", "g": g, "side": "left", "inputs": [{"w": x, "v": gram.values(x, rng, rng.choice([0, 3, 4]))}]})
    # Short ones, which the general definitions judge too.
    for i in range(60 if ctx.quick else 400):
        add(rng.choice(["left", "right"]), rng.randint(0, 9))
    rng.shuffle(out)
    return out


def universe_scenarios(ctx, maxword, forest, cap=None):
    import universe
    out = []
    for g in universe.grammars(ctx, cap):
        ts = gram.terminals(g) or [1]
        ws = gram.words(ts, maxword if len(ts) == 1 else maxword - 1)
        if forest:
            ws = [w for w in ws if 0 < gram.size(g, w, 300) <= 300]
        if ws:
            out.append({"m": "parse", "g": g, "inputs": [{"w": w, "v": [10 + i for i in range(len(w))]} for w in ws]})
    return out


def design(ctx, inv, props=()):
    import universe as u
    if ctx.quick:
        ctx.design("EarleyMC", u.cfg("SpecAny", 1, 1, 2, 2, 3, 0, 1, inv, props=props),
                   "all 1-nonterminal grammars (<=2 productions of <=2 symbols), words <= 3, inferences in any order")
        ctx.design("EarleyMC", u.cfg("SpecOne", 2, 1, 2, 2, 2, ctx.seed, 60, inv),
                   "1/60 of the 2-nonterminal grammars, words <= 2")
    else:
        ctx.design("EarleyMC", u.cfg("SpecAny", 1, 1, 2, 2, 4, 0, 1, inv, props=props),
                   "all 1-nonterminal grammars (<=2 productions of <=2 symbols), words <= 4, inferences in any order")
        # Any order has too many charts for some grammars of three productions:
        # slices without them.
        for k in (1, 2, 3):
            ctx.design("EarleyMC", u.cfg("SpecAny", 1, 1, 3, 2, 3, k, 8, inv),
                       "1/8 of the 1-nonterminal grammars with <=3 productions, words <= 3, any order")
        ctx.design("EarleyMC", u.cfg("SpecOne", 1, 1, 3, 2, 4, 0, 1, inv),
                   "all 1-nonterminal grammars with <=3 productions, words <= 4, one order")
        ctx.design("EarleyMC", u.cfg("SpecAny", 1, 1, 2, 3, 2, 0, 1, inv),
                   "all 1-nonterminal grammars with <=2 productions of <=3 symbols, words <= 2, any order")
        ctx.design("EarleyMC", u.cfg("SpecOne", 2, 1, 2, 2, 2, ctx.seed, 5, inv),
                   "1/5 of the 2-nonterminal grammars, words <= 2", timeout=400)


def run(ctx, inv, forest, broken=None, props=()):
    import universe as u
    design(ctx, inv, props)
    if broken:
        ctx.design("EarleyMC", u.cfg("SpecAny", 1, 1, 2, 2, 3, 0, 1, [broken], split=False),
                   "variant without splits in the identity of items", expect=broken)
    scns = scenarios(ctx, 350 if ctx.quick else 3000, 6 if ctx.quick else 8, forest)
    ctx.conform(scns, "TraceParse", "structured families and random grammars", shards=8)
    scns = universe_scenarios(ctx, 3 if ctx.quick else 4, forest, cap=None if ctx.quick else 6000)
    ctx.conform(scns, "TraceParse", "small universe enumerated by the specification", shards=8)
    ctx.conform(long_scenarios(ctx, forest), "TraceLong", "linear grammars, inputs of thousands of tokens", shards=8, stall=120)
