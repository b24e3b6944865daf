import itertools


def cfg(nt, nops, variant="code", spec="Spec", live=False, kinds=10):
    s = 'SPECIFICATION %s\nCONSTANTS\n NT = %d\n NOps = %d\n Kinds = %d\n Variant = "%s"\n' % (spec, nt, nops, kinds, variant)
    if spec == "Spec":
        s += "INVARIANTS Atomic Interned LockOk\n"
    if live:
        s += "PROPERTIES AllEnd\n"
    return s + "CHECK_DEADLOCK %s\n" % ("TRUE" if spec == "Spec" else "FALSE")


def as_ops(prog):
    out = []
    for o in prog:
        o = dict(o)
        if o["op"] == "add":
            # Two contents, one of each kind.
            leaf = o.pop("con") == 1
            o.update({"k": "leaf" if leaf else "br", "t": 1, "v": 1, "c": [] if leaf else [1, 2]})
        elif o["op"] == "lazy":
            o = {"op": "branch", "t": 3, "c": [2, 1]}
        out.append(o)
    return out


def histories(rng, n):
    out = []
    for _ in range(n):
        nodes = rng.choice([1, 2, 3])
        nt = rng.choice([2, 3, 3, 4])
        per = {2: 8, 3: 5, 4: 4}[nt]
        kinds = rng.choice([["add", "all", "read"], ["add", "all", "read", "read"], ["add", "read", "leaf", "branch", "dot", "all"]])
        ths = []
        for _ in range(nt):
            ops = []
            for _ in range(per):
                k = rng.choice(kinds)
                node = lambda: rng.randint(1, nodes)
                if k == "add":
                    leaf = rng.random() < 0.6
                    ops.append({"op": "add", "n": node(), "k": "leaf" if leaf else "br", "t": rng.randint(1, 3), "v": rng.randint(1, 2),
                                "c": [] if leaf else [node() for _ in range(rng.randint(0, 3))]})
                elif k == "all":
                    ops.append({"op": "all", "n": node(), "m": node()})
                elif k in ("read", "dot"):
                    ops.append({"op": k, "n": node()})
                elif k == "leaf":
                    ops.append({"op": "leaf", "t": rng.randint(1, 3), "v": rng.randint(1, 2)})
                else:
                    ops.append({"op": "branch", "t": rng.randint(1, 3), "c": [node() for _ in range(rng.randint(0, 3))]})
            ths.append(ops)
        out.append({"m": "conc", "kind": "history", "nodes": nodes, "threads": ths, "jitter": rng.choice([0, 0, 3, 20]), "slow": rng.random() < 0.5})
    return out


HOWS = ["make", "leaf", "branch", "nested", "read", "merge", "wait", "behind"]


def lazies(rng, n):
    ops = [{"target": t, "how": h, "t": 7} for t in ("alt", "node")
           for h in [[], *[[x] for x in HOWS], *[list(p) for p in itertools.product(HOWS, repeat=2)]]]
    ops += [{"target": rng.choice(["alt", "node"]), "how": [rng.choice(HOWS) for _ in range(rng.randint(3, 6))], "t": 9} for _ in range(n)]
    return [{"m": "conc", "kind": "lazy", "ops": ops[i:i + 12]} for i in range(0, len(ops), 12)]


MIXES = [["node", "leaf", "branch", "alts", "dot"], ["leafalt", "bralt", "content", "dot", "add"], ["all", "add", "alts", "dot"],
         ["dot", "node"], ["all", "all", "content", "node"], ["content", "leaf"], ["same", "branch", "dot", "alts"],
         ["node", "leaf", "branch", "leafalt", "bralt", "add", "all", "alts", "content", "dot", "same"]]


def content(i):
    return {"k": "leaf" if i % 2 else "br", "t": i, "v": i if i % 2 else 0, "c": []}


def litmus(rng, n, rounds, ms):
    """Small programs that are run very many times.  The alternatives are made
    first, in an order that has nothing to do with the order of their use."""
    out = []

    def scenario(nodes, pre, setup, threads, noise, slow):
        def op(o):
            if o[0] == "add":
                return {"op": "add", "n": o[1], "p": o[2], **pre[o[2] - 1]}
            if o[0] == "all":
                return {"op": "all", "n": o[1], "m": o[2]}
            return {"op": "read", "n": o[1]}
        out.append({"m": "conc", "kind": "litmus", "nodes": nodes, "pre": pre, "setup": [op(o) for o in setup],
                    "threads": [[op(o) for o in t] for t in threads], "noise": noise, "rounds": rounds, "ms": ms, "slow": slow})

    known = [
        # What is copied is what the source held then.
        (2, [("add", 2, 1)], [[("all", 1, 2)], [("add", 2, 2), ("read", 1)]]),
        (2, [("add", 2, 2)], [[("all", 1, 2)], [("add", 2, 1), ("read", 1)]]),
        (2, [("add", 2, 2), ("add", 2, 3)], [[("all", 1, 2), ("read", 2)], [("add", 2, 1), ("all", 2, 1), ("read", 1)]]),
        (3, [("add", 3, 1)], [[("all", 2, 3)], [("all", 1, 2)], [("add", 3, 2), ("read", 2), ("read", 1)]]),
        # What is read was there at one time.
        (1, [("add", 1, 2)], [[("read", 1)], [("add", 1, 1)]]),
        (1, [("add", 1, 2), ("add", 1, 3)], [[("read", 1), ("read", 1)], [("add", 1, 1)], [("add", 1, 4)]]),
        # One addition is the new one.
        (1, [], [[("add", 1, 1), ("read", 1)], [("add", 1, 1)], [("add", 1, 2)]]),
        (2, [("add", 1, 1)], [[("all", 2, 1)], [("all", 2, 1)], [("add", 2, 1)]]),
        # Copying to and fro.
        (2, [("add", 1, 1), ("add", 2, 2)], [[("all", 1, 2)], [("all", 2, 1)]]),
        (2, [("add", 1, 1)], [[("all", 1, 1)], [("add", 1, 2), ("read", 1)]]),
    ]
    for nodes, setup, threads in known:
        pre = [content(i) for i in range(1, 6)]
        for noise in (0, 3):
            scenario(nodes, pre, setup, threads, noise, False)
    for _ in range(n):
        pre = [content(i) for i in range(1, rng.randint(3, 6))]
        rng.shuffle(pre)
        nodes = rng.randint(1, 3)
        node = lambda: rng.randint(1, nodes)

        def op():
            k = rng.choice(["add", "add", "all", "all", "read", "read"])
            return (k, node(), rng.randint(1, len(pre))) if k == "add" else (k, node(), node()) if k == "all" else (k, node())
        nt = rng.choice([2, 2, 3])
        setup = [("add", node(), rng.randint(1, len(pre))) for _ in range(rng.randint(1, 4))]
        scenario(nodes, pre, setup, [[op() for _ in range(rng.randint(1, 3 if nt == 2 else 2))] for _ in range(nt)],
                 rng.choice([0, 1, 3]), rng.random() < 0.3)
    return out


def run(ctx):
    q = ctx.quick
    ctx.design("ForestConc", cfg(2, 2), "two threads, all programs, all schedules, with a lock that prefers writers")
    if not q:
        ctx.design("ForestConc", cfg(4, 1), "four threads")
        ctx.design("ForestConc", cfg(3, 2, kinds=5), "three threads with two operations of the main kinds", timeout=600)
    ctx.design("ForestConc", cfg(3, 1, live=True), "three threads, and everything ends")
    for v, e in (("heldwrite", "Deadlock reached"), ("heldread", "Deadlock reached"), ("gapall", "is violated"), ("gapalt", "is violated")):
        ctx.design("ForestConc", cfg(2, 2 if v.startswith("gap") else 1, v), "broken variant %s is refuted" % v, expect=e)
    progs = ctx.generate("ForestConc", cfg(3, 1, spec="GenSpec"), "programs of three threads")
    progs += ctx.generate("ForestConc", cfg(2, 2, spec="GenSpec"), "programs of two threads", cap=600 if q else 6000)
    rng = ctx.rng()
    scns = [{"m": "conc", "kind": "history", "nodes": 2, "threads": [as_ops(x) for x in p], "jitter": rng.choice([0, 3]), "slow": rng.random() < 0.5} for p in progs]
    ctx.conform(scns, "TraceConc", "programs of the specification", shards=2)
    ctx.conform(histories(rng, 300 if q else 6000), "TraceConc", "random concurrent histories", shards=2)
    ctx.conform(litmus(rng, 40 if q else 600, 20000 if q else 60000, 250 if q else 700), "TraceConc",
                "small programs run very many times", shards=2)
    rest = lazies(rng, 60 if q else 600)
    rest += [{"m": "conc", "kind": "race", "threads": rng.choice([2, 4, 8]), "rounds": 20 if q else 60, "alts": rng.choice([1, 2, 5]), "slow": rng.random() < 0.5} for _ in range(12 if q else 100)]
    rest += [{"m": "conc", "kind": "stress", "threads": rng.choice([3, 4, 6, 8]), "ms": 250 if q else 1500, "nodes": rng.choice([2, 6]), "mix": m, "slow": rng.random() < 0.5}
             for m in MIXES for _ in range(1 if q else 6)]
    rest += [{"m": "conc", "kind": "bulk", "readers": rng.choice([1, 2, 4]), "writers": rng.choice([1, 2, 3]), "alts": a, "rounds": 10 if q else 60}
             for a in (2, 5, 20, 60, 200) for _ in range(2 if q else 8)]
    ctx.conform(rest, "TraceConc", "nodes made on demand, races, and stress", shards=2, stall=60)
