import gram, universe, legs


def top(g):
    return max([g["start"]] + [r["h"] for r in g["rules"]] + [-x for r in g["rules"] for p in r["p"] for x in p["e"] if x < 0])


def scn(g, ops, **k):
    return dict({"m": "gram", "g": g, "ops": ops, "probe": top(g) + 2}, **k)


def named(g, rng, share=0.3):
    """The same grammar with some elements named."""
    return dict(g, rules=[{"h": r["h"], "p": [dict(p, n=[j + 1 if rng.random() < share else 0 for j in range(len(p["e"]))])
                                              for p in r["p"]]} for r in g["rules"]], how=rng.randint(0, 4))


def renamed(g, rng, n):
    """Some elements of a production share a name."""
    def f(x):
        return rng.randint(1, n) if x else 0
    return dict(g, rules=[{"h": r["h"], "p": [dict(p, n=[f(x) for x in p["n"]]) for p in r["p"]]} for r in g["rules"]])


def structured(ctx, rng, reps=2):
    out = []
    for name, g in sorted(gram.families().items()):
        out.append(named(g, rng, 0.0))
        for _ in range(reps):
            out.append(named(gram.rename(g, rng), rng, rng.choice([0.3, 1.0])))
    return out


def randoms(ctx, rng, n, **k):
    out = []
    for i in range(n):
        if rng.random() < 0.08:
            out.append(named(gram.alike(rng), rng, rng.choice([0, 0.3])))
            continue
        big = rng.random() < 0.15
        kk = dict(nnt=rng.randint(6, 12) if big else None, nt=rng.randint(3, 6) if big else None,
                  maxlen=rng.choice([2, 3, 4]), keys="mix")
        kk.update(k)
        out.append(gram.random_grammar(rng, **kk))
    return out


def nullish(ctx, rng, n):
    """Grammars with much nullability but (often) without ambiguity: each
    nonterminal has at most one production made to be nullable."""
    out = []
    while len(out) < n:
        a = rng.randint(2, 7)
        t = rng.randint(1, 4)
        null = set(rng.sample(range(1, a + 1), rng.randint(1, a)))
        order = sorted(null)
        rng.shuffle(order)
        rules = []
        for h in range(1, a + 1):
            ps = []
            if h in null:
                before = order[:order.index(h)]
                ln = rng.choice([0, 0, 1, 2, 3]) if before else 0
                ps.append([-rng.choice(before) for _ in range(ln)])
            for _ in range(rng.randint(0 if h in null else 1, 3)):
                ln = rng.choice([1, 2, 2, 3, 3, 4, 5])
                e = [-rng.randint(1, a) if rng.random() < 0.6 else rng.randint(1, t) for _ in range(ln)]
                if all(x < 0 and -x in null for x in e) and rng.random() < 0.9:
                    e[rng.randrange(len(e))] = rng.randint(1, t)
                ps.append(e)
            rng.shuffle(ps)
            rules.append((h, ps))
        g = gram.fix(gram.G(rng.randint(1, a), rules))
        if g is not None:
            out.append(named(gram.rename(g, rng), rng, rng.choice([0.0, 0.4, 1.0])))
    return out


def enumerated(ctx, rng, cap=None, names=0.3):
    return [named(g, rng, names) for g in universe.grammars(ctx, cap)]


def styled(scns, rng, share=0.4):
    """Some of the grammars have unusual texts for names, keys, terminals and
    one nonterminal."""
    return [dict(s, style=rng.randint(1, 90)) if rng.random() < share else s for s in scns]


def go(ctx, scns, what, **k):
    ctx.conform(scns, "TraceGram", what, shards=8, **k)


def malformed(rng, n):
    """Arbitrary descriptions: missing rules, rules without productions,
    unreachable parts, repeated heads, heads that are not used."""
    out = []
    for _ in range(n):
        # Some have many faults of all kinds.
        many = rng.random() < 0.12
        a = rng.randint(8, 24) if many else rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8])
        t = rng.randint(1, 3)
        present = rng.choice([0.5, 0.7, 0.9]) if many else None
        bare = rng.choice([0.2, 0.5, 0.8]) if many else 0
        heads = [h for h in range(1, a + 1) if rng.random() < (present or rng.choice([0.6, 0.9, 1.0, 1.0]))]
        if rng.random() < 0.25 and heads:
            heads += [rng.choice(heads) for _ in range(rng.randint(1, 2))]
        rng.shuffle(heads)
        rules = []
        k = 0
        for h in heads:
            np = rng.choice([0, 1, 1, 1, 2, 2, 3]) if rng.random() < 0.5 else rng.choice([1, 2, 3])
            if rng.random() < bare:
                np = 0
            ps = []
            for i in range(np):
                ln = rng.choice([0, 1, 1, 2, 2, 3] if not many else [1, 2, 4, 8])
                e = [-rng.randint(1, a) if rng.random() < 0.45 else rng.randint(1, t) for _ in range(ln)]
                k += 1
                ps.append({"k": k, "v": rng.randint(0, 9), "e": e,
                           "n": [j + 1 if rng.random() < 0.3 else 0 for j in range(ln)]})
            rules.append({"h": h, "p": ps})
        out.append({"start": rng.randint(1, a), "rules": rules, "how": rng.randint(0, 4)})
    return out


def chains(rng, n):
    """Long chains of nonterminals, with a defect somewhere along the chain."""
    out = []
    for _ in range(n):
        m = rng.randint(3, 14)
        order = list(range(1, m + 1))
        rng.shuffle(order)
        rules = []
        for i, h in enumerate(order):
            nxt = order[i + 1] if i + 1 < m else None
            e = [[1, -nxt]] if nxt else [[1]]
            if rng.random() < 0.2:
                e.append([-rng.choice(order)])
            if rng.random() < 0.2:
                e.insert(0, [2])
            rules.append((h, e))
        g = gram.G(order[0], rules)
        d = rng.randint(0, 5)
        i = rng.randrange(len(g["rules"]))
        if d == 0:
            del g["rules"][i]
        elif d == 1:
            g["rules"][i]["p"] = []
        elif d == 2:
            g["rules"][i]["p"][0]["e"] = [1]
            g["rules"][i]["p"][0]["n"] = [0]
        elif d == 3:
            g["start"] = order[i]
        elif d == 4:
            g["rules"].append({"h": order[i], "p": [gram.P(500, [1])]})
        rng.shuffle(g["rules"])
        g["how"] = rng.randint(0, 4)
        out.append(g)
    return out


def overridden(gs, rng):
    """Gives some heads twice; the last rule counts."""
    out = []
    for g in gs:
        rules = list(g["rules"])
        for _ in range(rng.randint(1, 2)):
            h = rng.choice(rules)["h"]
            i = rng.randint(0, min(j for j, r in enumerate(rules) if r["h"] == h))
            rules.insert(i, {"h": h, "p": [gram.P(900 + j, [rng.randint(1, 3)] * rng.randint(0, 3)) for j in range(rng.randint(0, 3))]})
        # A head that is not used anywhere is tolerated.
        if rng.random() < 0.5:
            free = top(g) + 1
            old = rng.choice(g["rules"])["h"]
            ps = [[[1, 2]], [[]], [[], [1]], [[], []], [[-old]], [[-old, -old], [3, -old]], [[2, -old], []]]
            rules.insert(rng.randint(0, len(rules)), {"h": free, "p": [gram.P(950 + i, e) for i, e in enumerate(rng.choice(ps))]})
        out.append(dict(g, rules=rules))
    return out


def wide(rng, n, maxn=60):
    """Many rules and productions, long productions."""
    out = []
    while len(out) < n:
        a = rng.randint(8, maxn)
        rules = []
        for h in range(1, a + 1):
            ps = []
            for _ in range(rng.randint(1, 12 if rng.random() < 0.1 else 4)):
                ln = rng.choice([0, 1, 2, 3, 5, 8, 13, 21]) if rng.random() < 0.5 else rng.randint(1, 4)
                ps.append([-rng.randint(1, a) if rng.random() < 0.5 else rng.randint(1, 150) for _ in range(ln)])
            if h < a:
                ps.append([-(h + 1)])
            rules.append((h, ps))
        rng.shuffle(rules)
        g = gram.fix(gram.G(1, rules))
        if g is not None:
            out.append(named(g, rng, rng.choice([0.0, 0.3, 1.0])))
    return out


def productive(g):
    m = gram.last_prods(g)
    ok = set()
    while True:
        new = {h for h, ps in m.items() if h not in ok and any(all(x > 0 or -x in ok for x in p) for p in ps)}
        if not new:
            return ok == set(m)
        ok |= new


def nitems(g):
    return sum(len(e) + 1 for ps in gram.last_prods(g).values() for e in ps)


def lines(rng, n, top=20):
    """Long chains in the order of heads, against it, or in any order, along
    which something has to travel one step at a time."""
    out = []
    for _ in range(n):
        m = rng.randint(3, top)
        order = list(range(1, m + 1))
        o = rng.random()
        if o < 0.35:
            order.reverse()
        elif o > 0.7:
            rng.shuffle(order)
        nulls = [m + 1 + i for i in range(rng.randint(0, 2))]
        kind = rng.choice(["unit", "begin", "end", "mid", "null", "mixed"])
        rules = []
        for i, h in enumerate(order):
            if i + 1 == m:
                e = [[] if kind == "null" else [rng.randint(1, 3)]]
            else:
                k = rng.choice(["unit", "begin", "end", "mid"]) if kind == "mixed" else kind
                t = rng.randint(4, 6)
                e = [[-order[i + 1]]] if k in ("unit", "null") else [[-order[i + 1], t]] if k == "begin" else \
                    [[t, -order[i + 1]]] if k == "end" else [[t, -order[i + 1], t]]
            for z in nulls:
                if rng.random() < 0.3:
                    e[0].insert(rng.randint(0, len(e[0])), -z)
            if rng.random() < 0.15:
                e.append([7 + rng.randint(0, 2)])
            if rng.random() < 0.1:
                e.append([-rng.choice(order), 7])
            rng.shuffle(e)
            rules.append((h, e))
        for z in nulls:
            rules.append((z, [[]] + ([[10 + z]] if rng.random() < 0.7 else [])))
        start = order[0]
        g = gram.G(start, rules)
        # What is not reached from the start is hung below it.
        lost = set(nulls) - {-x for r in g["rules"] for p in r["p"] for x in p["e"]}
        for r in g["rules"]:
            if r["h"] == start:
                for z in sorted(lost):
                    r["p"].append(gram.P(700 + z, [8, -z]))
        rng.shuffle(g["rules"])
        g["how"] = rng.randint(0, 4)
        out.append(named(g, rng, rng.choice([0, 0.5])))
    return out


def same_keys(gs, rng):
    """Some productions of a rule have the same key."""
    return [dict(g, rules=[{"h": r["h"], "p": [dict(p, k=rng.randint(1, 2)) for p in r["p"]]} for r in g["rules"]]) for g in gs]


def extremes(rng, quick, long=None):
    """Grammars of unusual dimensions."""
    out = []
    for _ in range(1 if quick else 8):
        for name, g, ws in gram.extremes(rng):
            if name != "large numbers":
                out.append(named(gram.rename(g, rng) if rng.random() < 0.5 else g, rng, rng.choice([0, 0.3, 1])))
        # Long productions of one nonterminal that can vanish.
        m = rng.choice([12, 17, 33, 40])
        e = [-2] * m
        e.insert(rng.choice([m, m, rng.randint(0, m)]), 4)
        out.append(named(gram.G(1, [(1, [e, [4]]), (2, [[], [3]])]), rng, rng.choice([0, 0.3])))
        out.append(named(gram.G(1, [(1, [[-2] * m, [4]]), (2, [[], [3, -1]])]), rng, rng.choice([0, 0.3])))
        # One production with many nonterminals that can vanish.
        for m in (rng.randint(8, 9), rng.randint(2, 7)):
            z = rng.randint(0, 70)
            e = [-(i % 3 + 2) for i in range(m)] + [-5] * z
            rng.shuffle(e)
            e += [rng.randint(1, 5) for _ in range(rng.randint(0, 70))]
            out.append(named(gram.G(1, [(1, [e, [-2, -3, -4, -5]]), (2, [[], [3]]), (3, [[], [1]]), (4, [[-2, -2]]), (5, [[2]])]), rng, rng.choice([0, 0.3])))
    return out + lines(rng, 5 if quick else 40, long or 140)


def long_nullish(rng, n, lo=5, hi=12):
    """Long productions most of whose elements can vanish, each in one way:
    the sets have to travel across many elements of one production."""
    out = []
    while len(out) < n:
        m = rng.randint(2, 9)
        null = list(range(2, 2 + m))
        rules = []
        t = 0
        for i, h in enumerate(null):
            ps = [[] if i < 2 or rng.random() < 0.6 else [-rng.choice(null[:i]) for _ in range(rng.randint(1, hi))]]
            for _ in range(rng.randint(0, 2)):
                t += 1
                ps.append([20 + t] if rng.random() < 0.7 else [20 + t, -rng.choice(null)])
            rng.shuffle(ps)
            rules.append((h, ps))
        solid = m + 2
        rules.append((solid, [[50], [51, -1], [52] + [-rng.choice(null) for _ in range(rng.randint(0, hi))]]))
        ps = []
        for _ in range(rng.randint(1, 3)):
            ln = rng.randint(lo, hi)
            if rng.random() < 0.5 and ln <= m:
                e = [-x for x in rng.sample(null, ln)]
            else:
                e = [-rng.choice(null) for _ in range(ln)]
            r = rng.random()
            at = rng.choice([0, 0, 1, ln // 2, ln - 1, ln, ln])
            if r < 0.35:
                e.insert(at, -solid)
            elif r < 0.6 or ps:
                e.insert(at, rng.randint(1, 9))
            ps.append(e)
        rng.shuffle(ps)
        rules.append((1, ps))
        if rng.random() < 0.4:
            rules.append((m + 3, [[60, -1, 61], [-1, 62]]))
            g = gram.fix(gram.G(m + 3, rules))
        else:
            g = gram.fix(gram.G(1, rules))
        if g is not None:
            out.append(named(gram.rename(g, rng), rng, rng.choice([0.0, 0.5, 1.0])))
    return out


def gaps(gs, rng):
    """The same grammars with heads that are not consecutive numbers, so that
    there are unknown nonterminals before, between and after them."""
    out = []
    for g in gs:
        nts = sorted({g["start"]} | {r["h"] for r in g["rules"]} | {-x for r in g["rules"] for p in r["p"] for x in p["e"] if x < 0})
        m = dict(zip(nts, sorted(rng.sample(range(1, len(nts) * 2 + 4), len(nts)))))
        f = lambda x: x if x > 0 else -m[-x]
        out.append(dict(g, start=m[g["start"]],
                        rules=[{"h": m[r["h"]], "p": [dict(p, e=[f(x) for x in p["e"]]) for p in r["p"]]} for r in g["rules"]]))
    return out
