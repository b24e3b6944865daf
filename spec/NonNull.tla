------------------------------ MODULE NonNull -------------------------------
(* The removal of empty productions.                                         *)
EXTENDS Derive

\* Positions of nonterminal occurrences of a right-hand side, in order.
RECURSIVE NTPos(_, _)
NTPos(e, k) == IF k > Len(e) THEN << >>
               ELSE IF IsNT(e[k]) THEN <<k>> \o NTPos(e, k + 1) ELSE NTPos(e, k + 1)

\* A mask says for each nonterminal occurrence whether it is dropped.
Masks(N, e) ==
  LET q == NTPos(e, 1)
      z == { i \in DOMAIN q : -e[q[i]] \in N }
  IN { [ i \in DOMAIN q |-> i \in S ] : S \in SUBSET z }

\* The positions that stay under mask m.
Kept(e, m) ==
  LET q == NTPos(e, 1)
      gone == { q[i] : i \in { j \in DOMAIN q : m[j] } }
  IN DOMAIN e \ gone

RECURSIVE Pick(_, _, _)
Pick(s, K, k) == IF k > Len(s) THEN << >>
                 ELSE IF k \in K THEN <<s[k]>> \o Pick(s, K, k + 1) ELSE Pick(s, K, k + 1)

\* The variants of production p: masks that leave something.
Variants(N, p) == { m \in Masks(N, p.e) : Kept(p.e, m) # {} }

VariantRhs(p, m)   == Pick(p.e, Kept(p.e, m), 1)
VariantNames(p, m) == Pick(p.n, Kept(p.e, m), 1)

\* What the transformation refuses.
Refused(P, N) == \/ NullAmbiguous(P, N)
                 \/ \E A \in DOMAIN P : \A i \in DOMAIN P[A] : P[A][i].e = << >>

\* The transformed grammar (productions in some order).
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

Transform(P, N) ==
  [ A \in DOMAIN P |->
      SeqOf(UNION { { [k |-> <<i, m>>, v |-> P[A][i].v,
                       e |-> VariantRhs(P[A][i], m), n |-> VariantNames(P[A][i], m)]
                    : m \in Variants(N, P[A][i]) }
                  : i \in DOMAIN P[A] }) ]
=============================================================================
