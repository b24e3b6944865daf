------------------------------ MODULE ShareMC -------------------------------
(* Several parses that put their forests into one store (C04).  The grammar  *)
(* is  S ::= S S | a,  which is ambiguous from three tokens on.  A parse      *)
(* makes a node for each (symbol, span) that it needs, bottom up, and adds   *)
(* alternatives to it; Reuse says when it takes a node that is there already *)
(* instead of a new one:                                                     *)
(*   "none"    never;                                                        *)
(*   "content" a node with exactly the alternatives it is going to have;     *)
(*   "span"    a node that was made for the same symbol and span;            *)
(*   "leaf"    a node for the same token, at any place.                      *)
(* After each parse, every root represents what it represented when it was   *)
(* returned, and the new one represents what it does in a store of its own.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N,         \* parses
          MaxLen,    \* tokens of an input
          Vals,      \* values of tokens
          Reuse

VARIABLES store,     \* nodes: [key, alts]
          roots,     \* [n |-> node, w |-> input]
          done

vars == <<store, roots, done>>

Init == store = << >> /\ roots = << >> /\ done = FALSE

Leaf(v)    == <<"leaf", v, << >>>>
Branch(c)  == <<"br", 0, c>>

Words == UNION { [1..n -> 1..Vals] : n \in 1..MaxLen }

\* One node: where it is afterwards, and the store.
Put(st, key, alts) ==
  LET old == CASE Reuse = "none"    -> {}
               [] Reuse = "content" -> { i \in DOMAIN st : st[i].alts = alts }
               [] Reuse = "span"    -> { i \in DOMAIN st : st[i].key = key }
               [] Reuse = "leaf"    -> { i \in DOMAIN st : key[1] = "a" /\ st[i].key[1] = "a" /\ st[i].alts = alts }
  IN IF old = {} THEN <<Len(st) + 1, Append(st, [key |-> key, alts |-> alts])>>
     ELSE LET i == CHOOSE i \in old : TRUE IN <<i, [st EXCEPT ![i].alts = @ \cup alts]>>

\* The nodes of all spans of length n of w, from position i on.
RECURSIVE Spans(_, _, _, _, _)
Spans(st, at, w, n, i) ==
  IF n > Len(w) THEN <<st, at>>
  ELSE IF i + n > Len(w) THEN Spans(st, at, w, n + 1, 0)
  ELSE LET leaf == Put(st, <<"a", i, i + 1>>, {Leaf(w[i + 1])})
           st1  == IF n = 1 THEN leaf[2] ELSE st
           alts == IF n = 1 THEN {Branch(<<leaf[1]>>)}
                   ELSE { Branch(<<at[<<i, k>>], at[<<k, i + n>>]>>) : k \in (i + 1)..(i + n - 1) }
           p    == Put(st1, <<"S", i, i + n>>, alts)
       IN Spans(p[2], [ x \in DOMAIN at \cup {<<i, i + n>>} |-> IF x = <<i, i + n>> THEN p[1] ELSE at[x] ], w, n, i + 1)

Parse(w) == LET r == Spans(store, [ x \in {} |-> 0 ], w, 1, 0)
            IN /\ store' = r[1]
               /\ roots' = Append(roots, [n |-> r[2][<<0, Len(w)>>], w |-> w])

Emit == /\ Len(roots) = N /\ ~done
        /\ PrintT(<<"BEH", ToJson([ r \in DOMAIN roots |-> roots[r].w ])>>)
        /\ done' = TRUE /\ UNCHANGED <<store, roots>>

Next == (Len(roots) < N /\ (\E w \in Words : Parse(w)) /\ UNCHANGED done) \/ Emit
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* The trees of a node (there are no cycles).
RECURSIVE Trees(_)
Trees(i) == UNION { IF a[1] = "leaf" THEN {<<a[2]>>}
                    ELSE IF Len(a[3]) = 1 THEN { <<0, t>> : t \in Trees(a[3][1]) }
                    ELSE { <<0, t, u>> : t \in Trees(a[3][1]), u \in Trees(a[3][2]) }
                  : a \in store[i].alts }

\* All derivations of w[i+1..j].
RECURSIVE Derivs(_, _, _)
Derivs(w, i, j) == IF j = i + 1 THEN {<<0, <<w[j]>>>>}
                   ELSE UNION { { <<0, t, u>> : t \in Derivs(w, i, k), u \in Derivs(w, k, j) } : k \in (i + 1)..(j - 1) }

Undisturbed == \A r \in DOMAIN roots : Trees(roots[r].n) = Derivs(roots[r].w, 0, Len(roots[r].w))
=============================================================================
