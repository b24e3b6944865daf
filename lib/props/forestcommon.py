def cfg(n, trees, mn, mo, dot=False, intern="all", check=True):
    b = lambda x: "TRUE" if x else "FALSE"
    s = ('SPECIFICATION Spec\nCONSTANTS\n N = %d\n Trees = %d\n MaxNodes = %d\n MaxObjs = %d\n Dot = %s\n Intern = "%s"\n'
         % (n, trees, mn, mo, b(dot), intern))
    if check:
        s += "INVARIANTS Interned Separate\nPROPERTIES Refines Monotone\n"
    return s + "CHECK_DEADLOCK FALSE\n"


def history(rng, length, trees, dots=0.0, mixing=0.0, loops=True, cap=40):
    """A random history; the trees of nodes and alternatives are tracked, to
    mix trees on purpose only."""
    ops, nt, at = [], [], []
    nk, nv = rng.choice([(1, 1), (2, 2), (3, 5)])
    style = rng.random()
    for _ in range(length):
        t = rng.randint(1, trees)
        mine = [i + 1 for i, x in enumerate(nt) if x == t]
        other = [i + 1 for i, x in enumerate(nt) if x != t]

        def kids():
            if not mine:
                return []
            c = [rng.choice(mine) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 5]))]
            return c
        r = rng.random()
        if (r < 0.14 or not nt) and len(nt) < cap:
            ops.append({"op": "node", "tree": t})
            nt.append(t)
        elif r < 0.22:
            ops.append({"op": "leafalt", "tree": t, "t": rng.randint(1, nk), "v": rng.randint(1, nv)})
            at.append(t)
        elif r < 0.36:
            c = kids()
            bad = other and rng.random() < mixing
            if bad:
                c.insert(rng.randint(0, len(c)), rng.choice(other))
            ops.append({"op": "bralt", "tree": t, "t": rng.randint(1, nk), "c": c})
            if not bad:
                at.append(t)
        elif r < 0.44 and len(nt) < cap:
            ops.append({"op": "leaf", "tree": t, "t": rng.randint(1, nk), "v": rng.randint(1, nv)})
            nt.append(t)
        elif r < 0.56 and len(nt) < cap:
            c = kids()
            bad = other and rng.random() < mixing
            if bad:
                c.insert(rng.randint(0, len(c)), rng.choice(other))
            ops.append({"op": "branch", "tree": t, "t": rng.randint(1, nk), "c": c})
            if not bad:
                nt.append(t)
        elif dots and r < 0.56 + dots and nt:
            ops.append({"op": "dot", "n": rng.randint(1, len(nt))})
        elif r < 0.8 and at and nt:
            a = rng.randint(1, len(at))
            ok = [i + 1 for i, x in enumerate(nt) if x == at[a - 1]]
            bad = [i + 1 for i, x in enumerate(nt) if x != at[a - 1]]
            if bad and rng.random() < mixing or not ok:
                if bad:
                    ops.append({"op": "add", "n": rng.choice(bad), "a": a})
            else:
                ops.append({"op": "add", "n": rng.choice(ok), "a": a})
        elif nt:
            n = rng.randint(1, len(nt))
            ok = [i + 1 for i, x in enumerate(nt) if x == nt[n - 1]]
            bad = [i + 1 for i, x in enumerate(nt) if x != nt[n - 1]]
            m = rng.choice(bad) if bad and rng.random() < mixing else rng.choice(ok)
            if rng.random() < 0.5:
                ops.append({"op": "all", "n": n, "m": m})
            else:
                ops.append({"op": "addof", "n": n, "m": m, "i": rng.randint(0, 3)})
    return ops, nt


def many(rng, n, quietly=0.3):
    out = []
    for _ in range(n):
        trees = rng.choice([1, 1, 2, 3])
        ops, _ = history(rng, rng.choice([6, 12, 25, 40]), trees, mixing=rng.choice([0, 0.2]))
        out.append({"m": "forest", "trees": trees, "quiet": rng.random() < quietly, "ops": ops})
    return out


def long(rng, n):
    """Many alternatives and nodes, seen at the end only."""
    out = []
    for _ in range(n):
        ops, _ = history(rng, 250, rng.choice([1, 2]), cap=80)
        out.append({"m": "forest", "trees": 2, "quiet": True, "ops": ops})
    return out


def drawn(rng, n):
    out = []
    for _ in range(n):
        trees = rng.choice([1, 1, 1, 2])
        ops, nt = history(rng, rng.choice([5, 10, 20, 30]), trees, dots=0.04, cap=12)
        ops += [{"op": "dot", "n": rng.randint(1, len(nt))} for _ in range(3)]
        out.append({"m": "forest", "trees": trees, "quiet": True, "ops": ops})
    return out


def large(rng, n):
    """Pictures of larger forests with wide branches; the root reaches most of
    it."""
    out = []
    for _ in range(n):
        nodes = rng.randint(12, 45)
        wide = rng.choice([3, 5, 9])
        order = list(range(1, nodes + 1))
        rng.shuffle(order)
        rank = {x: i for i, x in enumerate(order)}
        ops = [{"op": "node", "tree": 1} for _ in range(nodes)]
        na = 0
        loops = rng.random() < 0.4
        for x in order:
            below = order[rank[x] + 1:]
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                if below and rng.random() < 0.75:
                    pool = order if loops and rng.random() < 0.2 else below[:rng.choice([4, 12, 45])]
                    c = [rng.choice(pool) for _ in range(rng.randint(0, wide))]
                    ops.append({"op": "bralt", "tree": 1, "t": rng.randint(1, 5), "c": c})
                else:
                    ops.append({"op": "leafalt", "tree": 1, "t": rng.randint(1, 4), "v": rng.randint(1, 30)})
                na += 1
                ops.append({"op": "add", "n": x, "a": na})
        ops += [{"op": "dot", "n": order[0]}, {"op": "dot", "n": order[rng.randint(0, 4)]}]
        out.append({"m": "forest", "trees": 1, "quiet": True, "ops": ops})
    return out


def huge(rng, k, dot=False):
    """Forests of unusual dimensions: hundreds of nodes, of alternatives of one
    node, of children of one branch; deep chains."""
    out = []
    for i in range(k):
        n = rng.randint(258, 300)
        shape = i % 4
        ops = [{"op": "node", "tree": 1} for _ in range(n)]
        na = 0

        def alt(op, at):
            nonlocal na
            na += 1
            ops.append(dict(op, tree=1))
            ops.append({"op": "add", "n": at, "a": na})
        kids = lambda m: [rng.randint(1, n) for _ in range(m)]
        if shape == 0:
            # Many alternatives of one node; then the same again in another order, and all of them elsewhere.
            for j in range(n):
                if j % 3:
                    alt({"op": "bralt", "t": j % 7, "c": [j + 1] * (j % 4)}, 1)
                else:
                    alt({"op": "leafalt", "t": j % 5, "v": j}, 1)
            for a in rng.sample(range(1, na + 1), 40):
                ops.append({"op": "add", "n": 1, "a": a})
                ops.append({"op": "add", "n": 2, "a": a})
            ops += [{"op": "all", "n": 2, "m": 1}, {"op": "all", "n": 2, "m": 1}, {"op": "all", "n": 1, "m": 2}]
        elif shape == 1:
            # Branches with many children that differ in one place.
            base = kids(n)
            for j in [0, 64, 256] if dot else [0, 0, 1, 63, 64, 65, 127, 128, 255, 256, n - 2, n - 1]:
                c = list(base)
                c[j] = c[j] % n + 1
                alt({"op": "bralt", "t": 1, "c": c}, 1)
                alt({"op": "bralt", "t": 1, "c": base[:j]}, 2)
            alt({"op": "bralt", "t": 1, "c": base}, 1)
        elif shape == 2:
            # A chain, with alternatives along it.
            for j in range(1, n):
                alt({"op": "bralt", "t": j % 300, "c": [j + 1]}, j)
            alt({"op": "leafalt", "t": 1, "v": 1}, n)
            alt({"op": "bralt", "t": 0, "c": [1]}, n)
        else:
            # Leaves and branches made in one call, with many kinds.
            ops = ops[:20]
            n = 20
            for j in range(260):
                if j % 2:
                    ops.append({"op": "leaf", "tree": 1, "t": j // 4, "v": j % 3})
                else:
                    ops.append({"op": "branch", "tree": 1, "t": j // 4, "c": kids(rng.choice([0, 1, 3]))})
                n += 1
        if dot:
            ops.append({"op": "dot", "n": 1 if shape < 3 else n - 1})
        out.append({"m": "forest", "trees": 1, "quiet": True, "ops": ops})
    return out


def far(rng, k):
    """Trees with more than 2^16 nodes and alternatives, which are sampled."""
    out = []
    for i in range(k):
        n = [300, 66000, 33000, 140000][i % 4] + rng.randint(0, 500)
        at = {1, 2, n - 1, n, n // 2} | {x for x in (127, 128, 255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537, 131072) if x <= n}
        at |= {rng.randint(1, n) for _ in range(10)}
        out.append({"m": "forest", "trees": 1, "quiet": True, "ops": [{"op": "far", "n": n, "at": sorted(at)}]})
    return out
