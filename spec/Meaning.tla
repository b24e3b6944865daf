------------------------------ MODULE Meaning -------------------------------
(* What grammars, nullability, first and follow sets, the removal of empty   *)
(* productions, the start rule and LR(1) items mean, by rewriting: the       *)
(* definitions that the recursive characterizations of Gram, NonNull and Lr1 *)
(* have to meet.  Rewriting is cut off at sentential forms of Cap symbols,   *)
(* so that everything found is derivable, and on small grammars everything   *)
(* derivable is found.                                                       *)
EXTENDS NonNull, Lr1

Put1(f, i, e) == SubSeq(f, 1, i - 1) \o e \o SubSeq(f, i + 1, Len(f))

\* All rewritings of one symbol, any / the leftmost / the rightmost one.
RewritesAt(P, f, i, Cap) ==
  { g \in { Put1(f, i, P[-f[i]][m].e) : m \in DOMAIN P[-f[i]] } : Len(g) <= Cap }

NTAt(f) == { i \in DOMAIN f : IsNT(f[i]) }

AnyRewrites(P, f, Cap) == UNION { RewritesAt(P, f, i, Cap) : i \in NTAt(f) }

RightRewrites(P, f, Cap) ==
  UNION { RewritesAt(P, f, i, Cap) : i \in { x \in NTAt(f) : \A y \in NTAt(f) : y <= x } }

RECURSIVE Forms(_, _, _)
Forms(Step(_), todo, all) ==
  IF todo = {} THEN all
  ELSE LET new == (UNION { Step(f) : f \in todo }) \ all
       IN Forms(Step, new, all \cup new)

SententialForms(P, f, Cap) == LET Step(g) == AnyRewrites(P, g, Cap) IN Forms(Step, {f}, {f})
RightForms(P, f, Cap)      == LET Step(g) == RightRewrites(P, g, Cap) IN Forms(Step, {f}, {f})

----------------------------------------------------------------------------
DerivesEmpty(P, A, Cap) == << >> \in SententialForms(P, <<-A>>, Cap)

\* First(A): the terminals with which a form derived from A begins.
FirstMeaning(P, A, Cap) ==
  { f[1] : f \in { g \in SententialForms(P, <<-A>>, Cap) : g # << >> /\ IsTerm(g[1]) } }

\* Follow(A): the terminals right of A in a form derived from a nonterminal
\* that is reachable (everything in a well-formed grammar).
FollowMeaning(P, start, A, Cap) ==
  LET F == SententialForms(P, <<-start>>, Cap)
  IN UNION { { f[i + 1] : i \in { j \in 1..Len(f) - 1 : f[j] = -A /\ IsTerm(f[j + 1]) } } : f \in F }

\* The words derived from A, up to MaxWord terminals.
LanguageOf(P, A, words) == { w \in words : A \in DOMAIN P /\ Len(w) \in Table(P, w)[1][A] }

----------------------------------------------------------------------------
(* LR(1): <<item, t>> is valid for a prefix g if, for some rightmost         *)
(* derivation S $ =>* x A t y => x a b t y, g = x a and item is A -> a.b.    *)
End == 90

ValidItems(P, Q, start, g, Cap) ==
  UNION { LET i == CHOOSE x \in NTAt(f) : \A y \in NTAt(f) : y <= x
              A == -f[i]
          IN { <<<<n, Len(g) - (i - 1)>>, f[i + 1]>>
             : n \in { m \in DOMAIN Q : /\ Q[m][1] = A
                                        /\ Len(g) >= i - 1
                                        /\ Len(g) - (i - 1) <= Len(Rhs(P, Q[m]))
                                        /\ SubSeq(f, 1, i - 1) \o SubSeq(Rhs(P, Q[m]), 1, Len(g) - (i - 1)) = g } }
        : f \in { h \in RightForms(P, <<-start, End>>, Cap) : NTAt(h) # {} } }

RECURSIVE StateAfter(_, _, _, _, _, _)
StateAfter(P, Q, N, F, S, g) ==
  IF g = << >> THEN S
  ELSE StateAfter(P, Q, N, F, GotoOf(P, Q, N, F, S, g[1]), Tail(g))

StartState(P, Q, N, F, start) == Closure(P, Q, N, F, ItemsOf(Q, start) \X {End})
=============================================================================
