----------------------------- MODULE MeaningMC ------------------------------
(* The recursive characterizations against rewriting, over a universe of     *)
(* grammars.                                                                 *)
EXTENDS Meaning, TLC

CONSTANTS NNT, NT, MaxProds, MaxLen, MaxWord, Slice, Of, Cap,
          Kind    \* 1: nullability, first, follow; 2: removal of empty
                  \* productions and the start rule; 3: LR(1) items

VARIABLES d, done

U == INSTANCE Universe

RECURSIVE Hash(_, _)
Hash(s, h) == IF s = << >> THEN h ELSE Hash(Tail(s), (h * 31 + s[1] + 7) % 10007)
RECURSIVE HashProds(_, _)
HashProds(ps, h) == IF ps = << >> THEN h ELSE HashProds(Tail(ps), (Hash(ps[1].e, h) * 17 + 3) % 10007)
RECURSIVE HashRules(_, _)
HashRules(rs, h) == IF rs = << >> THEN h ELSE HashRules(Tail(rs), (HashProds(rs[1].p, h) * 13 + 5) % 10007)

Init == /\ d \in { x \in U!Descriptions : HashRules(x.rules, 1) % Of = Slice % Of }
        /\ done = FALSE

P == ProdsOf(d)
N == NullableNTs(P)
F == FirstOfAll(P, N)
Amb == NullAmbiguous(P, N)

\* Every nonterminal derives a word of at most one symbol, so that short forms
\* are enough to see all items.
Short == \A A \in DOMAIN P : LanguageOf(P, A, U!Words(1)) # {}

Analyses ==
  /\ \A A \in DOMAIN P : (A \in N) <=> DerivesEmpty(P, A, Cap)
  /\ \A A \in DOMAIN P : (A \in N) <=> 0 \in Table(P, << >>)[1][A]
  /\ \A A \in DOMAIN P : F[A] = FirstMeaning(P, A, Cap)
  /\ LET W == FollowOfAll(P, N, F)
     IN \A A \in DOMAIN P : W[A] = FollowMeaning(P, 1, A, Cap)

\* At most one way to derive the empty word from each nonterminal, if and only
\* if no nonterminal has two nullable productions.
EmptyTrees ==
  Amb <=> \E A \in N : Cardinality(Packed(P, Table(P, << >>), << >>, A, 0, 0)) > 1

Removal ==
  ~Refused(P, N) =>
    LET Q == Transform(P, N)
        words == U!Words(MaxWord)
    IN /\ \A A \in DOMAIN P : LanguageOf(Q, A, words) = LanguageOf(P, A, words) \ {<< >>}
       /\ NullableNTs(Q) = {}

\* The wrapped grammar: a new nonterminal 50 with the one production start End.
Wrapped == [ A \in DOMAIN P \cup {50} |->
               IF A = 50 THEN <<[k |-> 0, v |-> 0, e |-> <<-1, End>>, n |-> <<1, 0>>]>> ELSE P[A] ]

StartRule ==
  LET words == U!Words(MaxWord)
      ended == { Append(w, End) : w \in words }
      L1 == LanguageOf(P, 1, words)
  IN /\ LanguageOf(Wrapped, 50, words \cup ended) = { Append(w, End) : w \in L1 }
     /\ \A A \in DOMAIN P : LanguageOf(Wrapped, A, words) = LanguageOf(P, A, words)

Items ==
  LET Q == ProdList(P)
      syms == (1..NT) \cup { -A : A \in 1..NNT }
      prefixes == U!SeqsUpTo(syms, MaxWord)
      S0 == StartState(P, Q, N, F, 1)
      valid(g) == ValidItems(P, Q, 1, g, Cap)
      state(g) == StateAfter(P, Q, N, F, S0, g)
  IN \A g \in prefixes : /\ valid(g) \subseteq state(g)
                          /\ Short => state(g) \subseteq valid(g)

Holds == CASE Kind = 1 -> Analyses /\ EmptyTrees
           [] Kind = 2 -> Removal /\ StartRule
           [] Kind = 3 -> Items

Next == ~done /\ done' = TRUE /\ UNCHANGED d
Spec == Init /\ [][Next]_<<d, done>>
Ok == done => Holds
=============================================================================
