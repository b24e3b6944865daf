"""Grammar and input generators.  Symbols: terminals > 0, nonterminal A is -A
inside productions and A as a head."""

def P(k, e, v=0, n=None):
    return {"k": k, "v": v, "e": list(e), "n": list(n) if n else [0] * len(e)}

def G(start, rules, how=0):
    """rules: list of (head, [rhs, ...]); action keys are numbered per head."""
    out = []
    for h, ps in rules:
        out.append({"h": h, "p": [P(10 * h + i + 1, e, v=100 * h + i) for i, e in enumerate(ps)]})
    return {"start": start, "rules": out, "how": how}

def fix(g):
    """Keeps the part of g that is well formed: drops nonterminals without
    rules or productions, and those not reachable.  Returns None if the start
    symbol goes."""
    last = {}
    for i, r in enumerate(g["rules"]):
        last[r["h"]] = i
    while True:
        bad = {r["h"] for i, r in enumerate(g["rules"]) if last[r["h"]] == i and not r["p"]}
        heads = {r["h"] for r in g["rules"]}
        change = False
        rules = []
        for r in g["rules"]:
            if r["h"] in bad:
                change = True
                continue
            ps = [p for p in r["p"] if all(x > 0 or (-x in heads and -x not in bad) for x in p["e"])]
            if len(ps) != len(r["p"]):
                change = True
            rules.append({"h": r["h"], "p": ps})
        g = dict(g, rules=rules)
        last = {}
        for i, r in enumerate(g["rules"]):
            last[r["h"]] = i
        if not change:
            break
    if g["start"] not in last:
        return None
    seen, todo = {g["start"]}, [g["start"]]
    while todo:
        a = todo.pop()
        for p in g["rules"][last[a]]["p"]:
            for x in p["e"]:
                if x < 0 and -x not in seen:
                    seen.add(-x)
                    todo.append(-x)
    g["rules"] = [r for r in g["rules"] if r["h"] in seen]
    return g

def random_grammar(rng, nnt=None, nt=None, maxp=4, maxlen=4, pnull=None, pnt=None, names=True,
                   keys="head", wellformed=True):
    for _ in range(200):
        a = nnt or rng.choice([1, 1, 2, 2, 3, 3, 4, 5])
        t = nt or rng.choice([1, 1, 2, 2, 3])
        pn = rng.choice([0.0, 0.1, 0.3]) if pnull is None else pnull
        pN = rng.choice([0.3, 0.5, 0.7]) if pnt is None else pnt
        rules = []
        heads = list(range(1, a + 1))
        rng.shuffle(heads)
        mode = rng.choice(["head", "same", "rand"]) if keys == "mix" else keys
        nk = 0
        similar = rng.choice([0, 0, maxlen, maxlen + 2])
        made = []
        for h in heads:
            ps = []
            for i in range(rng.randint(1, maxp)):
                ln = 0 if rng.random() < pn else rng.choice([1, 1, 1, 2, 2, 2, 3, 3, 4][:max(1, 2 * maxlen + 1)])
                ln = min(ln, maxlen)
                e = [-rng.randint(1, a) if rng.random() < pN else rng.randint(1, t) for _ in range(ln)]
                if similar and made and rng.random() < 0.6:
                    # Much like one that is there already.
                    e = list(rng.choice(made[-4:]))
                    for _ in range(rng.choice([1, 1, 2])):
                        sym = -rng.randint(1, a) if rng.random() < pN else rng.randint(1, t)
                        at = rng.randint(0, len(e))
                        o = rng.randint(0, 3)
                        if o == 0 and len(e) < similar:
                            e.insert(at, sym)
                        elif o == 1 and len(e) > 1 and at < len(e):
                            del e[at]
                        elif o == 2 and at + 1 < len(e):
                            e[at], e[at + 1] = e[at + 1], e[at]
                        elif at < len(e):
                            e[at] = sym
                    ln = len(e)
                made.append(e)
                if mode == "same":
                    k = i + 1
                elif mode == "rand":
                    k = nk = nk + rng.randint(1, 3)
                else:
                    k = 10 * h + i + 1
                n = [0] * ln
                if names:
                    for j in range(ln):
                        if rng.random() < 0.3:
                            n[j] = j + 1
                ps.append({"k": k, "v": rng.randint(0, 50), "e": e, "n": n})
            # keys in any order
            if rng.random() < 0.5:
                ks = [p["k"] for p in ps]
                rng.shuffle(ks)
                for p, k in zip(ps, ks):
                    p["k"] = k
            rules.append({"h": h, "p": ps})
        g = {"start": rng.choice(heads), "rules": rules, "how": rng.randint(0, 4)}
        if not wellformed:
            return g
        g = fix(g)
        if g is not None:
            return g
    raise RuntimeError("no grammar")

def alike(rng):
    """Long productions of one nonterminal that differ in one or two places."""
    a = rng.randint(2, 4)
    t = rng.randint(1, 3)
    pN = rng.choice([0.3, 0.6, 1.0])
    sym = lambda: -rng.randint(2, a + 1) if rng.random() < pN else rng.randint(1, t)
    ln = rng.randint(3, 8)
    ps = [[sym() for _ in range(ln)]]
    for _ in range(rng.randint(1, 4)):
        e = list(rng.choice(ps))
        for _ in range(rng.choice([1, 1, 2])):
            i = rng.randrange(len(e))
            o = rng.randint(0, 5)
            if o == 0:
                e.insert(i, sym())
            elif o == 1 and len(e) > 2:
                del e[i]
            else:
                e[i] = sym()
        if e not in ps:
            ps.append(e)
    rules = [(1, ps)]
    for h in range(2, a + 2):
        qs = [[rng.randint(1, t)]]
        if rng.random() < 0.3:
            qs.append([])
        if rng.random() < 0.4:
            qs.append([rng.randint(1, t), rng.randint(1, t)])
        if rng.random() < 0.2:
            qs.append([-rng.randint(2, a + 1)])
        rules.append((h, qs))
    return rename(fix(G(1, rules)), rng)

def rename(g, rng, shift_t=0):
    """The same grammar with its nonterminals renumbered, which changes the
    order of rules and of items."""
    nts = sorted({r["h"] for r in g["rules"]} | {g["start"]} |
                 {-x for r in g["rules"] for p in r["p"] for x in p["e"] if x < 0})
    m = nts[:]
    rng.shuffle(m)
    m = dict(zip(nts, m))
    f = lambda x: x if x > 0 else -m[-x]
    rules = [{"h": m[r["h"]], "p": [dict(p, e=[f(x) for x in p["e"]]) for p in r["p"]]} for r in g["rules"]]
    rng.shuffle(rules)
    return {"start": m[g["start"]], "rules": rules, "how": rng.randint(0, 4)}

def terminals(g):
    return sorted({x for r in g["rules"] for p in r["p"] for x in p["e"] if x > 0})

def nts(g):
    return sorted({r["h"] for r in g["rules"]})

# Structured families -------------------------------------------------------

def families():
    F = {}
    S, A, B, C, D, E_ = 1, 2, 3, 4, 5, 6
    a, b, c, d, e = 1, 2, 3, 4, 5
    F["astar_left"] = G(S, [(S, [[-S, a], []])])
    F["astar_right"] = G(S, [(S, [[a, -S], []])])
    F["aplus_left"] = G(S, [(S, [[-S, a], [a]])])
    F["anbn"] = G(S, [(S, [[a, -S, b], []])])
    F["anban"] = G(S, [(S, [[a, -S, a], [b]])])
    F["pal"] = G(S, [(S, [[a, -S, a], [b, -S, b], [a], [b], []])])
    F["ss_a"] = G(S, [(S, [[-S, -S], [a]])])
    F["ss_a_eps"] = G(S, [(S, [[-S, -S], [a], []])])
    F["sss_a"] = G(S, [(S, [[-S, -S, -S], [a]])])
    F["s_ss_sss"] = G(S, [(S, [[-S, -S], [-S, -S, -S], [a]])])
    F["expr"] = G(S, [(S, [[-S, a, -A], [-A]]), (A, [[-A, b, -B], [-B]]), (B, [[c, -S, d], [e]])])
    F["expr_amb"] = G(S, [(S, [[-S, a, -S], [-S, b, -S], [e]])])
    F["dangling"] = G(S, [(S, [[a, -S], [a, -S, b, -S], [c]])])
    F["cyc1"] = G(S, [(S, [[-S], [a]])])
    F["cyc2"] = G(S, [(S, [[-A], [a]]), (A, [[-S], [b]])])
    F["cyc_eps"] = G(S, [(S, [[-S, -S], []])])
    F["cyc_null"] = G(S, [(S, [[-A, -S], [a]]), (A, [[]])])
    F["cyc_null2"] = G(S, [(S, [[-A, -S, -B], [a]]), (A, [[], [b]]), (B, [[], [c]])])
    F["hidden_left"] = G(S, [(S, [[-A, -S, b], [c]]), (A, [[], [a]])])
    F["hidden_left2"] = G(S, [(S, [[-A, -B, -S, d], [c]]), (A, [[], [a]]), (B, [[], [b]])])
    F["hidden_right"] = G(S, [(S, [[b, -S, -A], [c]]), (A, [[], [a]])])
    F["null_chain"] = G(S, [(S, [[-A, -B, -C]]), (A, [[a], []]), (B, [[b], []]), (C, [[c], []])])
    F["null_deep"] = G(S, [(S, [[-A, -A]]), (A, [[-B, -B], [a]]), (B, [[-C, -C], [b]]), (C, [[], [c]])])
    F["null_indirect"] = G(S, [(S, [[-A, a]]), (A, [[-B]]), (B, [[-C]]), (C, [[]])])
    F["null_only"] = G(S, [(S, [[-A, -B]]), (A, [[]]), (B, [[-A]])])
    F["null_amb"] = G(S, [(S, [[-A], [-B]]), (A, [[]]), (B, [[]])])
    F["mutual"] = G(S, [(S, [[-A, a], [b]]), (A, [[-S, b], [a]])])
    F["mutual_null"] = G(S, [(S, [[-A, -S], [b]]), (A, [[-S, -A], []])])
    F["aaa_splits"] = G(S, [(S, [[-A, -A]]), (A, [[a], [a, a], [a, a, a]])])
    F["split3"] = G(S, [(S, [[-A, -B, -A]]), (A, [[a], [a, a], []]), (B, [[a], [a, a]])])
    F["split_term"] = G(S, [(S, [[-A, b, -A]]), (A, [[a], [b], [a, b], [b, a], [b, b], []])])
    F["two_ways"] = G(S, [(S, [[-A, -B], [-C, -D]]), (A, [[a]]), (B, [[b, c]]), (C, [[a, b]]), (D, [[c]])])
    F["same_rhs"] = G(S, [(S, [[-A], [-B]]), (A, [[a]]), (B, [[a]])])
    F["dup_prod"] = G(S, [(S, [[a], [a], [-S, -S]])])
    F["unary_chain"] = G(S, [(S, [[-A]]), (A, [[-B]]), (B, [[-C]]), (C, [[-D]]), (D, [[a, -S], [a]])])
    F["long_prod"] = G(S, [(S, [[a, b, c, a, b, c, a, -A]]), (A, [[a, a, a, a, a, a, b], [b]])])
    F["long_nt_prod"] = G(S, [(S, [[-A] * 6]), (A, [[a], []])])
    F["many_prods"] = G(S, [(S, [[i] for i in range(1, 14)] + [[-S, 14, -S]])])
    F["even"] = G(S, [(S, [[a, -A], []]), (A, [[a, -S]])])
    F["mod3"] = G(S, [(S, [[a, -A], []]), (A, [[a, -B]]), (B, [[a, -S]])])
    F["lists"] = G(S, [(S, [[a, -A, b]]), (A, [[], [-B]]), (B, [[-C], [-B, c, -C]]), (C, [[d], [-S]])])
    F["opt_opt"] = G(S, [(S, [[-A, -B, c]]), (A, [[-B, a], []]), (B, [[-A, b], []])])
    F["empty_lang_part"] = G(S, [(S, [[a], [-A, b]]), (A, [[-A, a]])])
    F["empty_lang"] = G(S, [(S, [[-S, a]])])
    F["useless_loop"] = G(S, [(S, [[a], [-A]]), (A, [[-A]])])
    F["center_eps"] = G(S, [(S, [[-A, a, -A]]), (A, [[-B], [b]]), (B, [[]])])
    F["triple_null"] = G(S, [(S, [[-A, -A, -A, a], [-A]]), (A, [[-B, -B], [a]]), (B, [[], [b]])])
    F["right_null"] = G(S, [(S, [[a, -S, -A], [-B]]), (A, [[-B]]), (B, [[]])])
    F["jay"] = G(S, [(S, [[-A, -A, -B]]), (A, [[-B, a], [-B]]), (B, [[b], []])])
    return F

def words(ts, n):
    """All words over ts of length at most n."""
    out = [[]]
    layer = [[]]
    for _ in range(n):
        layer = [w + [t] for w in layer for t in ts]
        out += layer
    return out

def last_prods(g):
    m = {}
    for r in g["rules"]:
        m[r["h"]] = [p["e"] for p in r["p"]]
    return m

def sample_word(g, rng, limit):
    """A word of the language, by random expansion; None if it gets too long
    or does not come to an end."""
    m = last_prods(g)
    # Productions that lead to an end, by depth.
    depth = {}
    while True:
        new = {}
        for h, ps in m.items():
            if h in depth:
                continue
            if any(all(x > 0 or -x in depth for x in p) for p in ps):
                new[h] = len(depth) + 1
        if not new:
            break
        depth.update(new)
    if g["start"] not in depth:
        return None
    steps = [0]
    out = []
    stack = [-g["start"]]
    while stack:
        x = stack.pop()
        steps[0] += 1
        if steps[0] > 40 * limit + 400:
            return None
        if x > 0:
            out.append(x)
            if len(out) > limit:
                return None
            continue
        ps = [p for p in m[-x] if all(y > 0 or -y in depth for y in p)]
        if len(out) + len(stack) > limit or steps[0] > 10 * limit + 100:
            ps.sort(key=lambda p: (max([depth[-y] for y in p if y < 0] or [0]), len(p)))
            p = ps[0]
        else:
            p = rng.choice(ps)
        stack.extend(reversed(p))
    return out

def mutate(w, ts, rng):
    w = list(w)
    for _ in range(rng.choice([1, 1, 2])):
        op = rng.randint(0, 3)
        i = rng.randint(0, len(w))
        if op == 0:
            w.insert(i, rng.choice(ts))
        elif op == 1 and w:
            del w[rng.randrange(len(w))]
        elif op == 2 and w:
            w[rng.randrange(len(w))] = rng.choice(ts)
        elif len(w) > 1:
            j = rng.randrange(len(w) - 1)
            w[j], w[j + 1] = w[j + 1], w[j]
    return w

def values(w, rng, mode=None):
    """Token values: rising, all equal, few, falling, or in no order."""
    mode = mode if mode is not None else rng.randint(0, 4)
    if mode == 0:
        return [100 + i for i in range(len(w))]
    if mode == 1:
        return [7] * len(w)
    if mode == 3:
        return [1000 - i for i in range(len(w))]
    if mode == 4:
        vs = [rng.choice([i, -i, 3 * i]) for i in range(len(w))]
        rng.shuffle(vs)
        return vs
    return [rng.randint(1, 2) for _ in w]

def inputs(g, rng, n, maxlen, short=2, foreign=True):
    ts = terminals(g) or [1]
    out = [[]]
    seen = {()}
    def add(w):
        if tuple(w) not in seen and len(w) <= maxlen:
            seen.add(tuple(w))
            out.append(list(w))
    tries = 0
    while len(out) < n and tries < 12 * n:
        tries += 1
        r = rng.random()
        if r < 0.55:
            w = sample_word(g, rng, rng.randint(1, maxlen))
            if w is not None:
                add(w)
        elif r < 0.8:
            w = sample_word(g, rng, maxlen)
            if w is not None:
                add(mutate(w, ts + ([max(ts) + 1] if foreign else []), rng))
        else:
            add([rng.choice(ts) for _ in range(rng.randint(0, maxlen))])
    return [{"w": w, "v": values(w, rng)} for w in out]

def size(g, w, limit):
    """The number of packed alternatives below the root for w (steers
    generation only); limit + 1 if it is over the limit."""
    m = last_prods(g)
    n = len(w)
    ends = [None] * (n + 1)
    work = [0]
    def seq_ends(seq, pos, i, cur):
        cs = {pos}
        for x in seq:
            nx = set()
            for p in cs:
                if x > 0:
                    if p < n and w[p] == x:
                        nx.add(p + 1)
                else:
                    nx |= cur[-x] if p == i else ends[p][-x]
            cs = nx
            if not cs:
                break
        return cs
    for i in range(n, -1, -1):
        cur = {h: set() for h in m}
        ch = True
        while ch:
            ch = False
            for h, ps in m.items():
                for p in ps:
                    s = seq_ends(p, i, i, cur)
                    if not s <= cur[h]:
                        cur[h] |= s
                        ch = True
        ends[i] = cur
    def splits(seq, pos, j):
        if not seq:
            return [[]] if pos == j else []
        x = seq[0]
        nx = ([pos + 1] if pos < j and w[pos] == x else []) if x > 0 else [p for p in ends[pos][-x] if p <= j]
        out = []
        for p in nx:
            for s in splits(seq[1:], p, j):
                out.append([(x, pos, p)] + s)
                if len(out) > limit:
                    return out
        return out
    if n not in ends[0][g["start"]]:
        return 0
    total, seen, todo = 0, {(g["start"], 0, n)}, [(g["start"], 0, n)]
    while todo:
        h, i, j = todo.pop()
        for p in m[h]:
            for s in splits(p, i, j):
                total += 1 + len(s)
                if total > limit:
                    return limit + 1
                for x, a, b in s:
                    if x < 0 and (-x, a, b) not in seen:
                        seen.add((-x, a, b))
                        todo.append((-x, a, b))
    return total

# Extremes ------------------------------------------------------------------

def linear(rng):
    """A grammar whose productions are tails, or a nonterminal and a tail;
    tails are made of terminals and of classes, nonterminals that stand for
    strings of terminals of one length."""
    while True:
        a, t = rng.randint(1, 4), rng.randint(1, 3)
        rules = []
        width = {}
        for c in range(a + 1, a + 1 + rng.choice([0, 1, 2, 3])):
            width[c] = rng.choice([0, 1, 1, 2])
            ps = [[rng.randint(1, t) for _ in range(width[c])] for _ in range(rng.randint(1, 3))]
            if width[c] and rng.random() < 0.6:
                ps = [list(x) for x in sorted({tuple(x) for x in ps})]
            rules.append((c, ps))
        def tail():
            out = []
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                out.append(-rng.choice(list(width)) if width and rng.random() < 0.5 else rng.randint(1, t))
            return out
        for h in range(1, a + 1):
            ps = []
            for _ in range(rng.randint(1, 4)):
                e = tail()
                if rng.random() < 0.65:
                    if all(x < 0 and width[-x] == 0 for x in e):
                        e.append(rng.randint(1, t))
                    e = [-rng.randint(1, a)] + e
                elif rng.random() < 0.3:
                    e = []
                if e not in ps:
                    ps.append(e)
            rng.shuffle(ps)
            rules.append((h, ps))
        g = fix(G(1, rules, rng.randint(0, 4)))
        # Long words have to exist.  Nonterminals that happen to be classes
        # make fronts into tails, maybe of unknown width: not those.
        if g and lean(g, a) and long_word(g, rng, 60) is not None:
            return rename(g, rng)

def classes(g):
    return {r["h"] for r in g["rules"]
            if all(x > 0 for p in r["p"] for x in p["e"]) and len({len(p["e"]) for p in r["p"]}) == 1}

def lean(g, a):
    """Is every front, here a nonterminal up to a, left with a tail of
    positive length, or a class itself?"""
    cl = classes(g)
    w = {r["h"]: len(r["p"][0]["e"]) for r in g["rules"] if r["h"] in cl}
    for r in g["rules"]:
        for p in r["p"]:
            e = p["e"]
            if e and e[0] < 0 and -e[0] not in cl:
                e = e[1:]
                if sum(1 if x > 0 else w.get(-x, 0) for x in e) == 0:
                    return False
            if any(x < 0 and -x not in cl for x in e):
                return False
    return True

def long_word(g, rng, n):
    """A word of about n tokens of a left linear grammar, by a random walk from
    the end of the word; None if there is no such word."""
    cl = classes(g)
    strs = {r["h"]: [p["e"] for p in r["p"]] for r in g["rules"] if r["h"] in cl}
    def front(e):
        return -e[0] if e and e[0] < 0 and -e[0] not in cl else None
    def text(e):
        return [y for x in e for y in ([x] if x > 0 else rng.choice(strs[-x]))]
    prods = {r["h"]: [p["e"] for p in r["p"]] for r in g["rules"]}
    # Nonterminals from which the walk can go on for ever, and ways out.
    live = set(prods)
    while True:
        keep = {h for h in live if any(front(e) in live for e in prods[h])}
        if keep == live:
            break
        live = keep
    ends = {}
    change = True
    while change:
        change = False
        for h, ps in prods.items():
            if h in ends:
                continue
            for e in ps:
                if front(e) is None or front(e) in ends:
                    ends[h] = e
                    change = True
                    break
    if g["start"] not in live or g["start"] not in ends:
        return None
    w, h = [], g["start"]
    while len(w) < n:
        es = [e for e in prods[h] if front(e) in live and front(e) in ends]
        if not es:
            return None
        e = rng.choice(es)
        w.extend(reversed(text(e[1:])))
        h = front(e)
    while h is not None:
        e = ends[h]
        w.extend(reversed(text(e[1:] if front(e) else e)))
        h = front(e)
    w.reverse()
    return w

def extremes(rng, k=1.0):
    """Grammars and inputs of unusual dimensions: [(name, grammar, [word])]."""
    S, A, B, C = 1, 2, 3, 4
    def n(lo, hi):
        return max(2, int(rng.randint(lo, hi) * k))
    out = []
    def add(name, g, *ws):
        g = dict(g, how=rng.randint(0, 4))
        out.append((name, g, [list(w) for w in ws]))
    m = n(66, 90)
    w = [rng.randint(1, 5) for _ in range(m)]
    add("long production", G(S, [(S, [w, w[:-1] + [6]])]), w, w[:-1], w[:-1] + [6], w + w[-1:])
    m = n(258, 300)
    w = [rng.randint(1, 5) for _ in range(m)]
    add("very long production", G(S, [(S, [w])]), w, w[:-1])
    m = n(34, 40)
    add("many nonterminals in a production", G(S, [(S, [[-A] * m]), (A, [[1], [2, 1]])]), [1] * m, [1] * (m - 1),
        [1] * (m - 2) + [2, 1, 2, 1], [1] * (m + 1))
    m = n(258, 300)
    ps = [[i] for i in range(1, m)]
    rng.shuffle(ps)
    add("many productions", G(S, [(S, ps + [[-S, m, -S]])]), [1], [m - 1], [255], [256], [257], [m], [3, m, 257], [256, m])
    m = n(130, 150)
    order = list(range(2, m + 2))
    rng.shuffle(order)
    rules = [(S, [[-order[0]]])] + [(h, [[-order[i + 1]] if i + 1 < m else [7]]) for i, h in enumerate(order)]
    add("long chain of units", G(S, rules), [7], [], [7, 7])
    m = n(66, 80)
    add("many alternatives of a node", G(S, [(S, [[-(i + 2)] for i in range(m)])] + [(i + 2, [[1]] if i % 3 else [[1], [2]]) for i in range(m)]), [1], [2], [])
    m = n(20, 26)
    add("many divisions", G(S, [(S, [[-A, -A]]), (A, [[1, -A], [1]])]), [1] * m, [1], [1] * 2)
    m = n(520, 600)
    add("long list", G(S, [(S, [[1, -S], [2]])]), [1] * m + [2], [1] * m, [2])
    m = n(12, 14)
    add("many that vanish", G(S, [(S, [[-(i + 2) for i in range(m)] + [1]])] + [(i + 2, [[]] if i % 2 else [[], [i + 2]]) for i in range(m)]), [1], [2, 1], [4, 8, 1], [8, 4, 1], [])
    # What matters comes late: only its place tells one part from the next.
    m = n(258, 300)
    pre = [1] * m
    w = lambda i, j, x: pre + [3] * i + [4] * j + [5] * x
    g = G(S, [(S, [[1, -S], [-A, -B]]), (A, [[3, -A, 4], [3, 4]]), (B, [[5, -B], [5]])])
    add("late structure", g, w(2, 2, 2), w(2, 1, 1), w(1, 2, 1), w(3, 3, 1), w(1, 1, 0))
    m = n(40, 50)
    add("deep brackets", G(S, [(S, [[1, -S, 2], [3]])]), [1] * m + [3] + [2] * m, [1] * m + [3] + [2] * (m - 1), [1] * m + [3] + [2] * (m + 1))
    big = [rng.randint(10 ** 6, 10 ** 8) for _ in range(4)]
    add("large numbers", G(big[0], [(big[0], [[big[1], -big[2]], []]), (big[2], [[-big[0], big[3]], [big[3]]])]),
        [], [big[1], big[3]], [big[1]], [big[1], big[1], big[3], big[3]])
    return out
