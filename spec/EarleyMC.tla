------------------------------ MODULE EarleyMC ------------------------------
(* Model checking of Earley over a small universe of grammars and inputs.    *)
EXTENDS Earley, TLC, Json

CONSTANTS NNT, NT, MaxProds, MaxLen, MaxWord, Slice, Of

U == INSTANCE Universe

\* Slice/Of: a part of the universe, chosen by a hash of the rules.
RECURSIVE Hash(_, _)
Hash(s, h) == IF s = << >> THEN h ELSE Hash(Tail(s), (h * 31 + s[1] + 7) % 10007)
RECURSIVE HashProds(_, _)
HashProds(ps, h) == IF ps = << >> THEN h ELSE HashProds(Tail(ps), (Hash(ps[1].e, h) * 17 + 3) % 10007)
RECURSIVE HashRules(_, _)
HashRules(rs, h) == IF rs = << >> THEN h ELSE HashRules(Tail(rs), (HashProds(rs[1].p, h) * 13 + 5) % 10007)

Picked == { x \in U!Descriptions : HashRules(x.rules, 1) % Of = Slice % Of }

Init == \E desc \in Picked, word \in U!Words(MaxWord) : InitFor(desc, word)

SpecAny == Init /\ [][AnyOrder]_evars /\ WF_evars(AnyOrder)
SpecOne == Init /\ [][OneOrder]_evars /\ WF_evars(OneOrder)

\* Generation: one behaviour per grammar of the universe.
GenInit == /\ d \in Picked
           /\ PrintT(<<"BEH", ToJson(d)>>)
           /\ w = << >> /\ pos = 0 /\ val = << >> /\ alts = << >> /\ st = "end"
SpecGen == GenInit /\ [][FALSE]_evars
=============================================================================
