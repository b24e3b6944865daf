from props.rangecommon import *


def cfg(n, m, inv=True):
    s = "SPECIFICATION Spec\nCONSTANTS\n N = %d\n MaxRanges = %d\n" % (n, m)
    if inv:
        s += "INVARIANTS CutExact Inside\nPROPERTIES TextsKept\n"
    return s + "CHECK_DEADLOCK FALSE\n"


def run(ctx):
    q = ctx.quick
    rng = ctx.rng()
    n = 4 if q else 5
    beh = ctx.generate("RangesMC", cfg(n, 4), "all histories of range operations, checking the specification",
                       cap=4000 if q else 40000)
    ctx.conform([{"m": "buffer", "ops": b} for b in beh], "TraceRanges", "all short histories", shards=8)
    ctx.conform([history(rng, rng.choice([8, 15, 30])) for _ in range(1500 if q else 15000)],
                "TraceRanges", "long random histories over Unicode texts", shards=8)
    ctx.conform([history(rng, 12, sizes=(30, 70, 140, 300)) for _ in range(100 if q else 1500)],
                "TraceRanges", "long steps and long texts", shards=8)
    ctx.conform(far(rng, "far", 40 if q else 400), "TraceRanges", "long texts", shards=8)
