------------------------------ MODULE RoundsMC ------------------------------
EXTENDS Rounds, TLC

CONSTANTS NNT, NT, MaxProds, MaxLen, Slice, Of

U == INSTANCE Universe

RECURSIVE Hash(_, _)
Hash(s, h) == IF s = << >> THEN h ELSE Hash(Tail(s), (h * 31 + s[1] + 7) % 10007)
RECURSIVE HashProds(_, _)
HashProds(ps, h) == IF ps = << >> THEN h ELSE HashProds(Tail(ps), (Hash(ps[1].e, h) * 17 + 3) % 10007)
RECURSIVE HashRules(_, _)
HashRules(rs, h) == IF rs = << >> THEN h ELSE HashRules(Tail(rs), (HashProds(rs[1].p, h) * 13 + 5) % 10007)

Init == \E x \in { y \in U!Descriptions : HashRules(y.rules, 1) % Of = Slice % Of } : InitFor(x)

SpecAny == Init /\ [][AnyOrder]_rvars /\ WF_rvars(AnyOrder)
SpecIn  == Init /\ [][InRounds]_rvars /\ WF_rvars(InRounds)
=============================================================================
