------------------------------ MODULE Forests -------------------------------
(* Parse forests as recorded from the code, and what it means for one to    *)
(* represent only, or all, derivations of an input.                          *)
(*                                                                           *)
(* A recorded forest is [root |-> r, n |-> <<[i |-> id, a |-> <<alt...>>]>>]  *)
(* where ids are 1..Len(n) and an alternative is                             *)
(*   [k |-> "leaf", t |-> terminal, v |-> value, c |-> <<>>] or              *)
(*   [k |-> "br", t |-> action key, v |-> 0, c |-> <<node ids>>].            *)
EXTENDS Derive

\* ids are dense in recorded forests: the entry for id i is f.n[i].
Alts(f) == [ i \in DOMAIN f.n |-> Range(f.n[i].a) ]

----------------------------------------------------------------------------
(* Number of leaves of the trees of each node.  "Unknown" is -1; a node gets *)
(* the length of any alternative all of whose children are known.            *)

RECURSIVE SumLen(_, _, _)
SumLen(L, c, k) == IF k > Len(c) THEN 0
                   ELSE L[c[k]] + SumLen(L, c, k + 1)

AltKnown(L, a) == a.k = "leaf" \/ \A k \in DOMAIN a.c : L[a.c[k]] # -1
AltLen(L, a)   == IF a.k = "leaf" THEN 1 ELSE SumLen(L, a.c, 1)

NodeLens(F) ==
  LET Step(L) == [ i \in DOMAIN F |->
                     IF L[i] # -1 THEN L[i]
                     ELSE LET K == { a \in F[i] : AltKnown(L, a) }
                          IN IF K = {} THEN -1
                             ELSE AltLen(L, CHOOSE a \in K : TRUE) ]
  IN Lfp(Step, [ i \in DOMAIN F |-> -1 ])

RECURSIVE Bounds(_, _, _, _)
\* <<pos, pos + len(c[k]), ...>>
Bounds(L, c, k, pos) == IF k > Len(c) THEN <<pos>>
                        ELSE <<pos>> \o Bounds(L, c, k + 1, pos + L[c[k]])

----------------------------------------------------------------------------
(* Soundness: every tree of node u is a derivation of w[i+1..] by symbol x.  *)
(* Tasks are <<node, symbol, position>>.  A task is fine if each of its      *)
(* alternatives is one of the packed alternatives for the part it covers,   *)
(* and so on for the children.                                               *)

ProdByKey(P, A, key) == { m \in DOMAIN P[A] : P[A][m].k = key }

\* Tasks spawned by a fine alternative.
Spawn(P, L, A, m, a, i) ==
  LET b == Bounds(L, a.c, 1, i)
  IN { <<a.c[k], P[A][m].e[k], b[k]>> : k \in DOMAIN a.c }

\* The ways in which alternative a is a packed alternative of A over i..j:
\* productions (there is one per key, unless keys are not unique).
Fits(P, E, w, L, A, i, j, a) ==
  IF a.k # "br" \/ \E k \in DOMAIN a.c : L[a.c[k]] = -1 THEN {}
  ELSE LET b == Bounds(L, a.c, 1, i)
       IN { m \in ProdByKey(P, A, a.t) :
              /\ Len(P[A][m].e) = Len(a.c)
              /\ b[Len(b)] = j
              /\ \A k \in DOMAIN a.c : Covers(E, w, P[A][m].e[k], b[k], b[k + 1]) }

TaskOk(P, E, w, val, F, L, t) ==
  LET u == t[1]
      x == t[2]
      i == t[3]
      j == i + L[u]
  IN /\ L[u] # -1
     /\ F[u] # {}
     /\ IF IsTerm(x)
        THEN /\ L[u] = 1 /\ j <= Len(w) /\ w[j] = x
             /\ \A a \in F[u] : a.k = "leaf" /\ a.t = x /\ a.v = val[j]
        ELSE \A a \in F[u] : Fits(P, E, w, L, -x, i, j, a) # {}

TaskNext(P, E, w, F, L, t) ==
  IF IsTerm(t[2]) THEN {}
  ELSE LET j == t[3] + L[t[1]]
       IN UNION { UNION { Spawn(P, L, -t[2], m, a, t[3])
                        : m \in Fits(P, E, w, L, -t[2], t[3], j, a) }
                : a \in F[t[1]] }

RECURSIVE SoundFrom(_, _, _, _, _, _, _, _)
SoundFrom(P, E, w, val, F, L, todo, seen) ==
  IF todo = {} THEN TRUE
  ELSE /\ \A t \in todo : TaskOk(P, E, w, val, F, L, t)
       /\ LET next == UNION { TaskNext(P, E, w, F, L, t) : t \in todo } \ seen
          IN SoundFrom(P, E, w, val, F, L, next, seen \cup next)

\* Every tree of node root derives exactly w from start.
SoundF(P, start, w, val, F, root) ==
  LET L == NodeLens(F)
      E == Table(P, w)
      t == <<root, -start, 0>>
  IN /\ L[root] = Len(w)
     /\ SoundFrom(P, E, w, val, F, L, {t}, {t})

Sound(P, start, w, val, f) == SoundF(P, start, w, val, Alts(f), f.root)

----------------------------------------------------------------------------
(* Completeness: every derivation of w[i+1..j] by symbol x is a tree of u.   *)
(* Tasks are <<node, symbol, i, j>>; a task holds if for each packed         *)
(* alternative there is an alternative of u with the same key whose          *)
(* children hold for the parts of that packed alternative (greatest fixed    *)
(* point, so that cyclic forests are treated correctly).                     *)

\* Candidate alternatives of u for packed alternative <<m, s>> of A.  With
\* strict, only those whose children have the right lengths: enough to show
\* completeness, and much cheaper.  (Nodes of unsound forests can have trees
\* of different lengths, so strict may fail where the property holds.)
Cands(P, F, L, strict, u, A, p) ==
  { a \in F[u] : /\ a.k = "br" /\ a.t = P[A][p[1]].k /\ Len(a.c) = Len(P[A][p[1]].e)
                 /\ strict => Bounds(L, a.c, 1, p[2][1]) = p[2] }

SubTasks(P, A, p, a) ==
  { <<a.c[k], P[A][p[1]].e[k], p[2][k], p[2][k + 1]>> : k \in DOMAIN a.c }

\* Leaves are decided at once, to keep the set of tasks small.
LeafOk(F, val, t) == \E a \in F[t[1]] : a.k = "leaf" /\ a.t = t[2] /\ a.v = val[t[4]]

\* What a task requires: for each packed alternative, one of several sets of
\* further tasks.
Requires(P, E, w, val, F, L, strict, t) ==
  { { { q \in SubTasks(P, -t[2], p, a) : IsNT(q[2]) }
    : a \in { b \in Cands(P, F, L, strict, t[1], -t[2], p) :
                \A q \in SubTasks(P, -t[2], p, b) : IsTerm(q[2]) => LeafOk(F, val, q) } }
  : p \in Packed(P, E, w, -t[2], t[3], t[4]) }

\* All tasks reachable from todo with their requirements.
RECURSIVE CReach(_, _, _, _, _, _, _, _, _, _)
CReach(P, E, w, val, F, L, strict, todo, seen, acc) ==
  IF todo = {} THEN acc
  ELSE LET new  == { <<t, Requires(P, E, w, val, F, L, strict, t)>> : t \in todo }
           next == UNION { UNION { UNION r : r \in x[2] } : x \in new } \ seen
       IN CReach(P, E, w, val, F, L, strict, next, seen \cup next, acc \cup new)

CompleteBy(P, E, start, w, val, F, L, strict, root) ==
  LET t == <<root, -start, 0, Len(w)>>
      All == CReach(P, E, w, val, F, L, strict, {t}, {t}, {})
      Shrink(X) == LET R == { x[1] : x \in X }
                   IN { x \in X : \A r \in x[2] : \E S \in r : S \subseteq R }
  IN \E x \in Lfp(Shrink, All) : x[1] = t

CompleteF(P, start, w, val, F, root) ==
  LET L == NodeLens(F)
      E == Table(P, w)
  IN \/ CompleteBy(P, E, start, w, val, F, L, TRUE, root)
     \/ CompleteBy(P, E, start, w, val, F, L, FALSE, root)

Complete(P, start, w, val, f) == CompleteF(P, start, w, val, Alts(f), f.root)

----------------------------------------------------------------------------
(* Two forests represent the same trees: bisimilarity of the roots.          *)

Label(a) == <<a.k, a.t, a.v, Len(a.c)>>

Pairs(a, b) == { <<a.c[k], b.c[k]>> : k \in DOMAIN a.c }

RECURSIVE BReach(_, _, _, _)
BReach(F, G, todo, seen) ==
  IF todo = {} THEN seen
  ELSE LET next == UNION { UNION { UNION { IF Label(a) = Label(b) THEN Pairs(a, b) ELSE {}
                                         : b \in G[t[2]] }
                                 : a \in F[t[1]] }
                         : t \in todo } \ seen
       IN BReach(F, G, next, seen \cup next)

BOk(F, G, R, t) ==
  /\ \A a \in F[t[1]] : \E b \in G[t[2]] : Label(a) = Label(b) /\ Pairs(a, b) \subseteq R
  /\ \A b \in G[t[2]] : \E a \in F[t[1]] : Label(a) = Label(b) /\ Pairs(a, b) \subseteq R

SameTrees(F, fr, G, gr) ==
  LET t == <<fr, gr>>
      Shrink(R) == { q \in R : BOk(F, G, R, q) }
  IN t \in Lfp(Shrink, BReach(F, G, {t}, {t}))

=============================================================================
