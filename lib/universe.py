"""Grammars enumerated by the specification (module EarleyMC / Universe)."""

def cfg(spec, nnt, nt, maxprods, maxlen, maxword, slice_, of, inv=(), split=True, props=()):
    s = "SPECIFICATION %s\nCONSTANTS\n SplitKey = %s\n NNT = %d\n NT = %d\n MaxProds = %d\n MaxLen = %d\n MaxWord = %d\n Slice = %d\n Of = %d\n" % (
        spec, "TRUE" if split else "FALSE", nnt, nt, maxprods, maxlen, maxword, slice_, of)
    if inv:
        s += "INVARIANTS " + " ".join(inv) + "\n"
    if props:
        s += "PROPERTIES " + " ".join(props) + "\n"
    return s + "CHECK_DEADLOCK FALSE\n"

def grammars(ctx, cap=None):
    """A slice of the small universe in the quick tier, most of it in the
    thorough tier."""
    if ctx.quick:
        plan = [(2, 1, 2, 2, 16), (1, 2, 3, 2, 4)]
    else:
        plan = [(2, 1, 2, 2, 1), (1, 2, 3, 2, 1), (1, 1, 3, 3, 1), (2, 1, 3, 2, 60), (2, 2, 2, 2, 20)]
    out = []
    for nnt, nt, mp, ml, of in plan:
        out += ctx.generate("EarleyMC", cfg("SpecGen", nnt, nt, mp, ml, 0, ctx.seed, of),
                            "all grammars with %d nonterminals, %d terminals, <=%d productions of <=%d symbols, slice 1/%d"
                            % (nnt, nt, mp, ml, of), cap=cap)
    return out
