def cfg(n, inputs, broken=False, gen=False):
    s = "SPECIFICATION Spec\nCONSTANTS\n N = %d\n MaxLen = %d\n InPlace = %s\n" % (n, inputs, "TRUE" if broken else "FALSE")
    if not gen:
        s += "INVARIANTS PositionOk Counted\nPROPERTIES Refines Persists\n"
    return s + "CHECK_DEADLOCK FALSE\n"


def randoms(rng, n):
    out = []
    for _ in range(n):
        ops, live, made = [], [], 0
        for _ in range(rng.randint(5, 60)):
            r = rng.random()
            if r < 0.08 or not live:
                k = rng.choice([0, 1, 2, 3, 5, 9, 40])
                toks = [[rng.randint(1, 4), rng.randint(1, 9)] for _ in range(k)]
                ops.append({"op": "new", "toks": toks})
                made += 1
                live.append([made, k])
            elif r < 0.8:
                # Mostly go on, sometimes read an old value again.
                s = live[-1] if rng.random() < 0.6 else rng.choice(live)
                ops.append({"op": "next", "s": s[0]})
                if s[1] > 0:
                    made += 1
                    live.append([made, s[1] - 1])
            elif r < 0.9:
                s = rng.choice(live)
                ops.append({"op": "clone", "s": s[0]})
                made += 1
                live.append([made, s[1]])
            else:
                s = live.pop(rng.randrange(len(live)))
                ops.append({"op": "drop", "s": s[0]})
        out.append({"m": "stream", "ops": ops})
    return out


def run(ctx):
    q = ctx.quick
    inputs = 2
    ctx.design("StreamImpl", cfg(5 if q else 6, inputs), "shared buffers with positions behave as persistent streams")
    ctx.design("StreamImpl", cfg(4, inputs, broken=True), "a stream that moves when it is read is refuted",
               expect="is violated")
    beh = ctx.generate("StreamImpl", cfg(5 if q else 6, inputs, gen=True), "all sequences of operations", cap=3000 if q else 40000)
    ctx.conform([{"m": "stream", "ops": b} for b in beh], "TraceStream", "all short sequences of stream operations", shards=8)
    ctx.conform(randoms(ctx.rng(), 1500 if q else 20000), "TraceStream", "long random sequences of stream operations", shards=8)
    rng = ctx.rng("long")
    longs = [{"m": "stream", "ops": [{"op": "long", "n": n, "at": sorted({0, n, rng.randint(0, n), rng.randint(0, n), max(0, n - 1)})}]}
             for n in [0, 1, 127, 128, 255, 256, 257, 4096, 32768, 65535, 65536, 65537, 70000] + [rng.randint(0, 150000) for _ in range(4 if q else 60)]]
    ctx.conform(longs, "TraceStream", "long streams, read to the end and from within", shards=8)
