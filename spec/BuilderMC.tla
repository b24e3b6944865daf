------------------------------ MODULE BuilderMC -----------------------------
EXTENDS Builder, TLC, Json

CONSTANTS Slice, Of

RECURSIVE Hash(_, _)
Hash(s, h) == IF s = << >> THEN h ELSE Hash(Tail(s), (h * 31 + s[1] + 7) % 10007)
RECURSIVE HashProds(_, _)
HashProds(ps, h) == IF ps = << >> THEN h ELSE HashProds(Tail(ps), (Hash(ps[1].e, h) * 17 + 3) % 10007)
RECURSIVE HashRules(_, _)
HashRules(rs, h) == IF rs = << >> THEN h
                    ELSE HashRules(Tail(rs), (HashProds(rs[1].p, h + rs[1].h) * 13 + 5) % 10007)

Picked == HashRules(rules, start) % Of = Slice % Of

Next == Calls \/ (Picked /\ Check)
Spec == Init /\ [][Next]_bvars /\ WF_bvars(Check)

\* A build, once asked for, ends.
Ends == (ph = "walk") ~> (ph = "end")

\* Generation: every picked description.
Emit == /\ ph = "calls" /\ Picked /\ ph' = "end"
        /\ PrintT(<<"BEH", ToJson(d)>>)
        /\ UNCHANGED <<start, rules, map, todo, seen, report>>
SpecGen == Init /\ [][Calls \/ Emit]_bvars
=============================================================================
