"""Design legs about grammars that several properties share."""


def meaning(ctx, kind, what):
    """MeaningMC: characterizations against rewriting.  kind 1: nullability,
    first and follow sets; 2: removal of empty productions, start rule; 3: LR(1)."""
    q = ctx.quick
    # nonterminals, terminals, productions, length, words, 1/slice, cap
    plan = {1: [(1, 2, 3, 2, 3, 1, 6), (2, 1, 2, 2, 3, 12 if q else 1, 6)] + ([] if q else [(2, 2, 2, 2, 2, 12, 5), (1, 1, 3, 3, 3, 1, 7)]),
            2: [(1, 2, 3, 2, 3, 1, 6), (2, 1, 2, 2, 4, 4 if q else 1, 6)] + ([] if q else [(2, 2, 2, 2, 3, 8, 6), (1, 1, 3, 3, 5, 1, 6), (3, 1, 1, 2, 4, 1, 6)]),
            3: [(1, 2, 2, 2, 2, 1, 8), (2, 1, 2, 2, 2, 20 if q else 2, 8)] + ([] if q else [(1, 2, 3, 2, 3, 1, 7), (1, 1, 2, 3, 2, 1, 8)])}[kind]
    for nnt, nt, mp, ml, mw, of, cap in plan:
        ctx.design("MeaningMC", "SPECIFICATION Spec\nCONSTANTS\n NNT = %d\n NT = %d\n MaxProds = %d\n MaxLen = %d\n MaxWord = %d\n Slice = %d\n Of = %d\n Cap = %d\n Kind = %d\nINVARIANTS Ok\nCHECK_DEADLOCK FALSE\n"
                   % (nnt, nt, mp, ml, mw, ctx.seed, of, cap, kind),
                   "%s against rewriting: all grammars with %d nonterminals, %d terminals, <=%d productions of <=%d symbols, slice 1/%d"
                   % (what, nnt, nt, mp, ml, of))


def rounds(ctx):
    """RoundsMC: chaotic iteration and rounds compute the sets by definition."""
    q = ctx.quick

    def leg(spec, mr, u, of, what, expect=None):
        ctx.design("RoundsMC", "SPECIFICATION %s\nCONSTANTS\n MaxRounds = %d\n NNT = %d\n NT = %d\n MaxProds = %d\n MaxLen = %d\n Slice = %d\n Of = %d\nINVARIANTS Sound Exact\n%sCHECK_DEADLOCK FALSE\n"
                   % ((spec, mr) + u + (ctx.seed, of, "" if expect else "PROPERTIES Ends\n")), what, expect=expect)
    small, long = (2, 1, 2, 2), (3, 1, 1, 2)
    leg("SpecAny", 0, small, 48 if q else 4, "the analyses as iteration in any order reach the defined sets")
    leg("SpecIn", 0, small, 96 if q else 8, "the analyses as rounds until nothing changes reach the defined sets")
    leg("SpecIn", 1, small, 64, "a single round is refuted", expect="is violated")
    if not q:
        leg("SpecAny", 0, long, 4, "three nonterminals: iteration in any order")
        leg("SpecIn", 0, long, 4, "three nonterminals: rounds until nothing changes")
        leg("SpecIn", 2, long, 8, "two rounds are refuted", expect="is violated")


def builder_cfg(ctx, spec, u, of, last=True, see=True):
    b = lambda x: "TRUE" if x else "FALSE"
    return "SPECIFICATION %s\nCONSTANTS\n LastWins = %s\n SeeStart = %s\n NNT = %d\n NT = %d\n MaxRules = %d\n MaxProds = %d\n MaxLen = %d\n Slice = %d\n Of = %d\n%sCHECK_DEADLOCK FALSE\n" % (
        (spec, b(last), b(see)) + u + (ctx.seed, of, "INVARIANTS ReportOk WalkOk\nPROPERTIES Ends\n" if spec == "Spec" and last and see else
                                       "INVARIANTS ReportOk WalkOk\n" if spec == "Spec" else ""))


def builder(ctx):
    q = ctx.quick
    u = (2, 1, 3, 2, 1)
    ctx.design("BuilderMC", builder_cfg(ctx, "Spec", u, 30 if q else 3), "builder calls, rule map and walk against the definition of a well-formed grammar")
    ctx.design("BuilderMC", builder_cfg(ctx, "Spec", u, 30, last=False), "a builder whose first rule of a head stays is refuted", expect="ReportOk is violated")
    ctx.design("BuilderMC", builder_cfg(ctx, "Spec", u, 30, see=False), "a walk that does not count the start symbol is refuted", expect="is violated")
    if not q:
        ctx.design("BuilderMC", builder_cfg(ctx, "Spec", (3, 1, 3, 1, 2), 40), "three heads: builder calls against the definition")


def descriptions(ctx, cap=None):
    """All small sequences of builder calls (a slice of them)."""
    q = ctx.quick
    out = []
    for u, of in [((2, 1, 3, 2, 1), 60 if q else 3), ((3, 1, 3, 1, 2), 80 if q else 6), ((2, 1, 2, 2, 2), 60 if q else 4)]:
        out += ctx.generate("BuilderMC", builder_cfg(ctx, "SpecGen", u, of),
                            "all sequences of builder calls with %d nonterminals, %d terminal, <=%d rules, <=%d productions of <=%d symbols, slice 1/%d" % (u + (of,)),
                            cap=cap)
    return out
