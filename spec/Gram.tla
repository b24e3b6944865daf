-------------------------------- MODULE Gram --------------------------------
(* Context-free grammars as data, and what is true of them by definition.   *)
(*                                                                           *)
(* A symbol is an integer: terminals are positive, nonterminal A is -A.     *)
(* A description is what a user hands to the grammar builder:               *)
(*   [start |-> A, rules |-> <<[h |-> A, p |-> <<production...>>]...>>]      *)
(* with productions                                                          *)
(*   [k |-> key, v |-> value, e |-> <<symbol...>>, n |-> <<name or 0...>>].  *)
(* The grammar of a description maps each head to the productions of the    *)
(* last rule given for that head.                                            *)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == { s[i] : i \in DOMAIN s }

IsTerm(x) == x > 0
IsNT(x)   == x < 0

----------------------------------------------------------------------------
(* Descriptions and grammars.                                                *)

Heads(d) == { d.rules[i].h : i \in DOMAIN d.rules }

LastRule(d, A) == CHOOSE i \in DOMAIN d.rules :
                     /\ d.rules[i].h = A
                     /\ \A j \in DOMAIN d.rules : d.rules[j].h = A => j <= i

\* Productions by head: the grammar proper.
ProdsOf(d) == [ A \in Heads(d) |-> d.rules[LastRule(d, A)].p ]

Prods(P, A) == IF A \in DOMAIN P THEN P[A] ELSE << >>

AllProds(P) == UNION { { <<A, i>> : i \in DOMAIN P[A] } : A \in DOMAIN P }

Rhs(P, q) == P[q[1]][q[2]].e

NTsIn(seq) == { -seq[i] : i \in { j \in DOMAIN seq : IsNT(seq[j]) } }
TermsIn(seq) == { seq[i] : i \in { j \in DOMAIN seq : IsTerm(seq[j]) } }

UsedNTs(P)   == UNION { NTsIn(Rhs(P, q)) : q \in AllProds(P) }
Terminals(P) == UNION { TermsIn(Rhs(P, q)) : q \in AllProds(P) }

----------------------------------------------------------------------------
(* Least fixed points.                                                       *)

RECURSIVE Lfp(_, _)
Lfp(F(_), S) == LET T == F(S) IN IF T = S THEN S ELSE Lfp(F, T)

----------------------------------------------------------------------------
(* Well-formedness.                                                          *)

Succs(P, A) == UNION { NTsIn(Prods(P, A)[i].e) : i \in DOMAIN Prods(P, A) }

\* Nonterminals reachable from the start symbol, the start symbol included.
ReachNTs(P, start) ==
  LET Step(S) == S \cup UNION { Succs(P, A) : A \in S }
  IN Lfp(Step, {start})

NoRule(P, start)  == (UsedNTs(P) \cup {start}) \ DOMAIN P
NoProds(P)        == { A \in DOMAIN P : P[A] = << >> }
Unreach(P, start) == UsedNTs(P) \ ReachNTs(P, start)

WellFormed(P, start) ==
  NoRule(P, start) = {} /\ NoProds(P) = {} /\ Unreach(P, start) = {}

----------------------------------------------------------------------------
(* Nullability.                                                              *)

SeqNullable(N, seq) == \A i \in DOMAIN seq : IsNT(seq[i]) /\ -seq[i] \in N

\* The nonterminals that derive the empty sequence.
NullableNTs(P) ==
  LET Step(N) == { A \in DOMAIN P : \E i \in DOMAIN P[A] :
                                       SeqNullable(N, P[A][i].e) }
  IN Lfp(Step, {})

NullProds(P, N, A) == { i \in DOMAIN P[A] : SeqNullable(N, P[A][i].e) }

NullAmbiguous(P, N) == \E A \in N : Cardinality(NullProds(P, N, A)) > 1

----------------------------------------------------------------------------
(* First and follow, as reachability.                                        *)

\* Symbols that can come first in what is derived from A in one step.
Begins(P, N, A) ==
  UNION { LET e == P[A][i].e IN
          { e[j] : j \in { m \in DOMAIN e : SeqNullable(N, SubSeq(e, 1, m - 1)) } }
        : i \in DOMAIN P[A] }

FirstOfAll(P, N) ==
  LET B == [ A \in DOMAIN P |-> Begins(P, N, A) ]
      Reach(A) == LET Step(S) == S \cup UNION { IF IsNT(x) THEN B[-x] ELSE {} : x \in S }
                  IN Lfp(Step, B[A])
  IN [ A \in DOMAIN P |-> { x \in Reach(A) : IsTerm(x) } ]

\* The terminals that can begin seq (F: first sets, N: nullable nonterminals).
FirstOfSeq(F, N, seq) ==
  UNION { IF IsTerm(seq[j]) THEN {seq[j]} ELSE F[-seq[j]]
        : j \in { m \in DOMAIN seq : SeqNullable(N, SubSeq(seq, 1, m - 1)) } }

\* Follow(A) by definition: least sets such that for every B -> alpha A beta,
\* First(beta) is in it, and Follow(B) too if beta can vanish.
FollowOfAll(P, N, F) ==
  LET occ == UNION { { <<q[1], -Rhs(P, q)[j], SubSeq(Rhs(P, q), j + 1, Len(Rhs(P, q)))>>
                     : j \in { m \in DOMAIN Rhs(P, q) : IsNT(Rhs(P, q)[m]) } }
                   : q \in AllProds(P) }
      direct == [ A \in DOMAIN P |->
                   UNION { FirstOfSeq(F, N, o[3]) : o \in { x \in occ : x[2] = A } } ]
      \* B such that what follows B follows A
      from == [ A \in DOMAIN P |->
                 { o[1] : o \in { x \in occ : x[2] = A /\ SeqNullable(N, x[3]) } } ]
      Up(A) == LET Step(S) == S \cup UNION { from[B] : B \in S } IN Lfp(Step, {A})
  IN [ A \in DOMAIN P |-> UNION { direct[B] : B \in Up(A) } ]

=============================================================================
