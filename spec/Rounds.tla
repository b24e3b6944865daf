------------------------------- MODULE Rounds -------------------------------
(* How the analyses are computed: productions are looked at one after the    *)
(* other, each adding what follows from what is known so far, until none     *)
(* adds anything.  The order is open (AnyOrder); InRounds is the order of    *)
(* the implementation, all productions in turn until a round without change. *)
(* LR(1) closures are computed in the same manner over items.                *)
EXTENDS Lr1

CONSTANTS MaxRounds   \* 0: until nothing changes; otherwise the broken
                      \* variant that stops after that many rounds

VARIABLES d,          \* the description
          ph,         \* "nul", "fst", "fol", "lr", "end" or "refused"
          nul,        \* nullable productions found
          fst, fol,   \* sets found, by nonterminal
          lr,         \* closure of the initial items, so far
          at, chg, rnd  \* InRounds: the next production, change, round

rvars == <<d, ph, nul, fst, fol, lr, at, chg, rnd>>

P == ProdsOf(d)
Q == ProdList(P)
NulNTs == { q[1] : q \in nul }
Ambiguous == \E A \in NulNTs : Cardinality({ q \in nul : q[1] = A }) > 1

\* What production q adds.
AddsNul(q) == IF SeqNullable(NulNTs, Rhs(P, q)) THEN {q} ELSE {}

AddsFst(q) == FirstOfSeq(fst, NulNTs, Rhs(P, q))

\* Pairs <<nonterminal, terminals that follow it>>.
AddsFol(q) ==
  LET e == Rhs(P, q)
      rest(i) == SubSeq(e, i + 1, Len(e))
  IN { <<-e[i], FirstOfSeq(fst, NulNTs, rest(i)) \cup
                (IF SeqNullable(NulNTs, rest(i)) THEN fol[q[1]] ELSE {})>>
     : i \in { j \in DOMAIN e : IsNT(e[j]) } }

FolWith(q) == [ A \in DOMAIN P |-> fol[A] \cup UNION { x[2] : x \in { y \in AddsFol(q) : y[1] = A } } ]

End == 90
AddsLr(x) ==
  LET s == ItemSym(P, Q, x[1]) IN
  IF ~IsNT(s) THEN {}
  ELSE LET e == ItemRhs(P, Q, x[1])
           rest == SubSeq(e, x[1][2] + 2, Len(e))
       IN ItemsOf(Q, -s) \X (FirstOfSeq(fst, NulNTs, rest) \cup (IF SeqNullable(NulNTs, rest) THEN {x[2]} ELSE {}))

\* What is known after looking at production q in the current phase.
News(q) == CASE ph = "nul" -> nul \cup AddsNul(q) # nul
             [] ph = "fst" -> ~(AddsFst(q) \subseteq fst[q[1]])
             [] ph = "fol" -> FolWith(q) # fol
             [] ph = "lr"  -> \E x \in lr : x[1][1] = (CHOOSE m \in DOMAIN Q : Q[m] = q) /\ ~(AddsLr(x) \subseteq lr)
             [] OTHER -> FALSE

Look(q) ==
  /\ nul' = IF ph = "nul" THEN nul \cup AddsNul(q) ELSE nul
  /\ fst' = IF ph = "fst" THEN [fst EXCEPT ![q[1]] = @ \cup AddsFst(q)] ELSE fst
  /\ fol' = IF ph = "fol" THEN FolWith(q) ELSE fol
  /\ lr'  = IF ph = "lr"
            THEN lr \cup UNION { AddsLr(x) : x \in { y \in lr : Q[y[1][1]] = q } }
            ELSE lr

NextPhase ==
  ph' = CASE ph = "nul" -> IF Ambiguous THEN "refused" ELSE "fst"
          [] ph = "fst" -> "fol"
          [] ph = "fol" -> "lr"
          [] ph = "lr"  -> "end"

InitFor(desc) ==
  /\ d = desc
  /\ ph = "nul" /\ nul = {}
  /\ fst = [ A \in DOMAIN ProdsOf(desc) |-> {} ]
  /\ fol = fst
  /\ lr = ItemsOf(ProdList(ProdsOf(desc)), desc.start) \X {End}
  /\ at = 1 /\ chg = FALSE /\ rnd = 1

Working == ph \in {"nul", "fst", "fol", "lr"}

AnyOrder ==
  /\ Working
  /\ \/ \E q \in AllProds(P) : News(q) /\ Look(q) /\ UNCHANGED ph
     \/ (\A q \in AllProds(P) : ~News(q)) /\ NextPhase /\ UNCHANGED <<nul, fst, fol, lr>>
  /\ UNCHANGED <<d, at, chg, rnd>>

InRounds ==
  /\ Working
  /\ IF at <= Len(Q)
     THEN /\ Look(Q[at]) /\ chg' = (chg \/ News(Q[at])) /\ at' = at + 1
          /\ UNCHANGED <<ph, rnd>>
     ELSE /\ UNCHANGED <<nul, fst, fol, lr>>
          /\ at' = 1 /\ chg' = FALSE
          /\ IF chg /\ (MaxRounds = 0 \/ rnd < MaxRounds)
             THEN rnd' = rnd + 1 /\ UNCHANGED ph
             ELSE rnd' = 1 /\ NextPhase
  /\ UNCHANGED d

----------------------------------------------------------------------------
N == NullableNTs(P)

\* Nothing wrong is ever found ...
Sound ==
  /\ \A q \in nul : SeqNullable(N, Rhs(P, q))
  /\ \A A \in DOMAIN P : fst[A] \subseteq FirstOfAll(P, N)[A]
  /\ \A A \in DOMAIN P : fol[A] \subseteq FollowOfAll(P, N, FirstOfAll(P, N))[A]

\* ... and everything is found.
Exact ==
  /\ ph = "refused" <=> (ph # "nul" /\ NullAmbiguous(P, N))
  /\ ph = "end" =>
       /\ NulNTs = N
       /\ nul = { q \in AllProds(P) : SeqNullable(N, Rhs(P, q)) }
       /\ fst = FirstOfAll(P, N)
       /\ fol = FollowOfAll(P, N, fst)
       /\ lr = Closure(P, Q, N, fst, ItemsOf(Q, d.start) \X {End})

Ends == <>(~Working)
=============================================================================
