from props.forestcommon import *


def run(ctx):
    q = ctx.quick
    ctx.design("ForestMC", cfg(4, 1, 3, 3) if q else cfg(5, 1, 3, 3), "nodes with numbers of interned alternatives behave as the store")
    ctx.design("ForestMC", cfg(4, 1, 3, 3, intern="none"), "alternatives without interning are refuted", expect="is violated")
    ctx.design("ForestMC", cfg(5, 1, 3, 3, intern="short"), "interning by a part of the content is refuted", expect="is violated")
    beh = ctx.generate("ForestMC", cfg(4, 2, 3, 3), "all short histories with two trees", cap=4000 if q else 30000)
    ctx.conform([{"m": "forest", "trees": 2, "quiet": False, "ops": b} for b in beh], "TraceForest", "all short histories", shards=8)
    rng = ctx.rng()
    ctx.conform(many(rng, 1200 if q else 12000) + long(rng, 10 if q else 200), "TraceForest", "long random histories", shards=8)
    ctx.conform(huge(ctx.rng("huge"), 8 if q else 80), "TraceForest", "forests of unusual dimensions", shards=8)
    ctx.conform(far(ctx.rng("far"), 3 if q else 12), "TraceForest", "trees with very many nodes and alternatives", shards=4, stall=60)
