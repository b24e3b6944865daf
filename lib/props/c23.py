def cfg(n, cow=True, gen=False):
    s = "SPECIFICATION Spec\nCONSTANTS\n N = %d\n CopyOnWrite = %s\n" % (n, "TRUE" if cow else "FALSE")
    if not gen:
        s += "INVARIANTS Counted\nPROPERTIES Refines\n"
    return s + "CHECK_DEADLOCK FALSE\n"


def randoms(rng, n, long=False):
    chars = [97, 98, 0, 10, 34, 92, 233, 8364, 65533, 65536, 128104, 55295, 57344]
    out = []
    for _ in range(n):
        few = rng.random() < 0.5
        # Texts that are the same or ordered differently in some other sense:
        # case, numbers, blanks, composed characters.
        chars[:2] = rng.choice([[97, 98], [65, 97], [90, 97], [49, 57], [48, 49], [32, 97], [32, 9], [233, 201], [101, 769], [95, 45], [0, 32]])

        def text():
            if long:
                # Tens of characters, with odd ones at the ends.
                body = [rng.choice(chars) if rng.random() < 0.1 else 97 for _ in range(rng.choice([5, 13, 24, 33, 50, 70]))]
                ends = [[], [32], [10], [9, 32], [0], [97]]
                return rng.choice(ends) + body + rng.choice(ends)
            return [rng.choice(chars[:2] if few else chars) for _ in range(rng.choice([0, 1, 2, 3, 8] if not few else [0, 1, 2]))]
        ops, live, made = [], [], 0
        for _ in range(rng.randint(4, 10) if long else rng.randint(5, 30)):
            r = rng.random()
            if not live or r < 0.15:
                ops.append({"op": "new", "text": text()})
                made += 1
                live.append(made)
            elif r < 0.45:
                ops.append({"op": "clone", "i": rng.choice(live)})
                made += 1
                live.append(made)
            elif r < 0.55:
                ops.append({"op": "drop", "i": live.pop(rng.randrange(len(live)))})
            elif r < 0.75:
                ops.append({"op": "push", "i": rng.choice(live), "text": text()})
            elif r < 0.88:
                ops.append({"op": "set", "i": rng.choice(live), "text": text()})
            else:
                ops.append({"op": rng.choice(["clear", "touch"]), "i": rng.choice(live)})
        out.append({"m": "names", "ops": ops})
    return out


def huge(rng, n):
    """Long names that differ in one place or in length; many clones of one."""
    out = []
    for i in range(n):
        base = [rng.choice([97, 98, 233, 128104]) for _ in range(rng.choice([66, 130, 260, 1030]))]
        ops = [{"op": "new", "text": base}]
        for _ in range(4):
            t = list(base)
            at = rng.choice([0, len(t) - 1, rng.randrange(len(t))])
            t[at] = 99
            ops.append({"op": "new", "text": rng.choice([t, t[:at + 1], base[:-1], base + [97]])})
        made = 5
        if i % 2:
            ops += [{"op": "clone", "i": rng.randint(1, made + j)} for j in range(25)]
            made += 25
        else:
            ops += [{"op": "clone", "i": 1} for j in range(300)]
            ops += [{"op": "drop", "i": made + j} for j in range(1, 295)]
            made += 300
        live = [1, 2, 3, 4, 5, made, made - 1]
        for _ in range(6):
            j = rng.choice(live)
            ops.append({"op": rng.choice(["push", "set", "touch", "clear"]), "i": j, "text": rng.choice([[97], base])})
        for o in ops[-6:]:
            o["look"] = rng.random() < 0.3
        ops[-1]["look"] = True
        out.append({"m": "names", "ops": ops, "quiet": True})
    return out


def run(ctx):
    q = ctx.quick
    ctx.design("NameMC", cfg(5 if q else 6), "counted cells with copy on write behave as names that are values")
    ctx.design("NameMC", cfg(4, cow=False), "changing a shared cell is refuted", expect="is violated")
    beh = ctx.generate("NameMC", cfg(4 if q else 6, gen=True), "all short histories", cap=4000 if q else 40000)
    ctx.conform([{"m": "names", "ops": b} for b in beh], "TraceNames", "all short histories", shards=8)
    ctx.conform(randoms(ctx.rng(), 600 if q else 8000), "TraceNames", "long random histories", shards=8)
    ctx.conform(randoms(ctx.rng("long"), 500 if q else 6000, True), "TraceNames", "names of tens of characters, odd ones at their ends", shards=8)
    ctx.conform(huge(ctx.rng("huge"), 10 if q else 100), "TraceNames", "long names, many clones", shards=8)
