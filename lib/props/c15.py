from props.forestcommon import *


def run(ctx):
    q = ctx.quick
    beh = ctx.generate("ForestMC", cfg(4, 1, 3, 3, dot=True), "all short histories, then the pictures of all nodes",
                       cap=2500 if q else 20000)
    ctx.conform([{"m": "forest", "trees": 1, "quiet": True, "ops": b} for b in beh], "TraceForest", "pictures after all short histories", shards=8)
    ctx.conform(drawn(ctx.rng(), 600 if q else 8000), "TraceForest", "pictures in random histories", shards=8)
    ctx.conform(large(ctx.rng("large"), 40 if q else 500), "TraceForest", "pictures of larger forests", shards=8)
    ctx.conform(huge(ctx.rng("huge"), 8 if q else 80, dot=True), "TraceForest", "pictures of forests of unusual dimensions", shards=8)
