-------------------------------- MODULE Lr1 ---------------------------------
(* LR(1) item sets.  Productions are numbered 1.. in the order of their     *)
(* heads; an item is <<production number, dot>>; an item set is a set of     *)
(* pairs <<item, lookahead>>.                                                *)
EXTENDS Gram

RECURSIVE SortedInts(_)
SortedInts(S) == IF S = {} THEN << >>
                 ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                      IN <<m>> \o SortedInts(S \ {m})

RECURSIVE FlattenProds(_, _)
FlattenProds(P, hs) == IF hs = << >> THEN << >>
                       ELSE [ i \in DOMAIN P[hs[1]] |-> <<hs[1], i>> ] \o FlattenProds(P, Tail(hs))

\* All productions <<head, index>> in order.
ProdList(P) == FlattenProds(P, SortedInts(DOMAIN P))

ItemRhs(P, Q, it) == P[Q[it[1]][1]][Q[it[1]][2]].e
ItemSym(P, Q, it) == LET e == ItemRhs(P, Q, it) IN IF it[2] < Len(e) THEN e[it[2] + 1] ELSE 0
ItemKey(P, Q, it) == P[Q[it[1]][1]][Q[it[1]][2]].k

ItemsOf(Q, A) == { <<n, 0>> : n \in { m \in DOMAIN Q : Q[m][1] = A } }

Closure(P, Q, N, F, S) ==
  LET Spawned(x) ==
        LET s == ItemSym(P, Q, x[1]) IN
        IF ~IsNT(s) THEN {}
        ELSE LET e == ItemRhs(P, Q, x[1])
                 rest == SubSeq(e, x[1][2] + 2, Len(e))
                 la == FirstOfSeq(F, N, rest) \cup (IF SeqNullable(N, rest) THEN {x[2]} ELSE {})
             IN ItemsOf(Q, -s) \X la
      RECURSIVE Cl(_, _)
      Cl(todo, all) == IF todo = {} THEN all
                       ELSE LET new == (UNION { Spawned(x) : x \in todo }) \ all
                            IN Cl(new, all \cup new)
  IN Cl(S, S)

\* The terminals that can be shifted, and where that leads.
ShiftOn(P, Q, S) == { s \in { ItemSym(P, Q, x[1]) : x \in S } : s > 0 }

GotoOf(P, Q, N, F, S, t) ==
  Closure(P, Q, N, F, { <<<<x[1][1], x[1][2] + 1>>, x[2]>> : x \in { y \in S : ItemSym(P, Q, y[1]) = t } })

Reducible(P, Q, S) == { ItemKey(P, Q, x[1]) : x \in { y \in S : ItemSym(P, Q, y[1]) = 0 } }
=============================================================================
