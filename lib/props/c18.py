from props.rangecommon import *

VARIANT = "textpos"


def cfg(n, alphabet, inv=True, rich=False):
    s = "SPECIFICATION Spec\nCONSTANTS\n N = %d\n Alphabet = {%s}\n Rich = %s\n" % (
        n, ", ".join(map(str, alphabet)), "TRUE" if rich else "FALSE")
    if inv:
        s += "INVARIANTS TableOk Ordered\n"
    return s + "CHECK_DEADLOCK FALSE\n"


def run(ctx):
    q = ctx.quick
    rng = ctx.rng()
    lines = ctx.generate("PositionsMC", cfg(6 if q else 8, [13, 10, 97]),
                         "table of lines against positions, all texts over two line ends and a letter")
    rich = ctx.generate("PositionsMC", cfg(3 if q else 4, [], rich=True),
                        "all short texts over characters of every kind")

    def scn(ts):
        return [{"m": "buffer", "ops": [{"op": "pos", "text": t} for t in ts[i:i + 4]]} for i in range(0, len(ts), 4)]
    ctx.conform(scn(lines) + scn(rich), "TraceRanges", "all positions of all short texts", variant=VARIANT, shards=8)
    more = [text(rng, rng.choice([5, 10, 20, 40]), lines=rng.choice([0.05, 0.2, 0.5])) for _ in range(1200 if q else 15000)]
    ctx.conform(scn(more) + [history(rng, 20, ends=True) for _ in range(500 if q else 8000)], "TraceRanges",
                "positions in long random texts, and the ends of ranges", variant=VARIANT, shards=8)
    ctx.conform(far(rng, "farpos", 60 if q else 600), "TraceRanges", "positions in very long texts and on very long lines",
                variant=VARIANT, shards=8)
