------------------------------ MODULE Universe ------------------------------
(* The grammars of a small universe, as descriptions.  Nonterminals 1..NNT,  *)
(* terminals 1..NT, up to MaxProds productions for each head, each of at     *)
(* most MaxLen symbols.                                                      *)
EXTENDS Gram

CONSTANTS NNT, NT, MaxProds, MaxLen

Symbols == (1..NT) \cup { -A : A \in 1..NNT }

RECURSIVE SeqsUpTo(_, _)
SeqsUpTo(S, n) == IF n = 0 THEN {<<>>}
                  ELSE {<<>>} \cup { <<x>> \o s : x \in S, s \in SeqsUpTo(S, n - 1) }

Words(n) == SeqsUpTo(1..NT, n)

\* An order of right-hand sides: by length, then by symbol.
RECURSIVE LexLess(_, _)
LexLess(s, t) == IF Len(s) = 0 \/ Len(t) = 0 THEN Len(s) < Len(t)
                 ELSE \/ Len(s) < Len(t)
                      \/ Len(s) = Len(t) /\ \/ s[1] < t[1]
                                            \/ s[1] = t[1] /\ LexLess(Tail(s), Tail(t))

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN << >>
             ELSE LET m == CHOOSE x \in S : \A y \in S \ {x} : LexLess(x, y)
                  IN <<m>> \o Sorted(S \ {m})

\* The sets of 1..n right-hand sides.
RECURSIVE UpTo(_, _)
UpTo(S, n) == IF n = 1 THEN { {x} : x \in S }
              ELSE { T \cup {x} : T \in UpTo(S, n - 1), x \in S } \cup UpTo(S, n - 1)

ProdSeq(A, S) == LET q == Sorted(S)
                 IN [ i \in DOMAIN q |->
                        [k |-> 10 * A + i, v |-> 0, e |-> q[i], n |-> [ j \in DOMAIN q[i] |-> 0 ]] ]

RuleSets == [1..NNT -> UpTo(SeqsUpTo(Symbols, MaxLen), MaxProds)]

Describe(R) == [start |-> 1, how |-> 0,
                rules |-> [ A \in 1..NNT |-> [h |-> A, p |-> ProdSeq(A, R[A])] ]]

\* Only those in which every nonterminal can be reached.
Descriptions == { d \in { Describe(R) : R \in RuleSets } :
                    ReachNTs(ProdsOf(d), 1) = 1..NNT }
=============================================================================
