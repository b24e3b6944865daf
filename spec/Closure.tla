------------------------------ MODULE Closure -------------------------------
(* What the iteration helpers compute (C20), declaratively.                  *)
EXTENDS Integers, Sequences, FiniteSets

Elems(s) == { s[i] : i \in DOMAIN s }

-----------------------------------------------------------------------------
(* Reachability: g is a sequence, g[x] the successors of x.                  *)

RECURSIVE Reach(_, _)
Reach(g, S) == LET N == S \cup UNION { Elems(g[x]) : x \in S } IN IF N = S THEN S ELSE Reach(g, N)

\* Being closed, and the least such set.
Closed(g, S) == \A x \in S : Elems(g[x]) \subseteq S

-----------------------------------------------------------------------------
(* Propagation of sets.  F is a function from the keys present to sets.  An  *)
(* edge [f, t, mask, add] passes on (F[f] \cap mask) \cup add.               *)

Passed(F, e) == (F[e.f] \cap e.mask) \cup e.add

SolvesSets(I, E, F) ==
  /\ \A k \in DOMAIN I : k \in DOMAIN F /\ I[k] \subseteq F[k]
  /\ \A e \in E : e.f \in DOMAIN F => (e.t \in DOMAIN F /\ Passed(F, e) \subseteq F[e.t])

RECURSIVE LeastSets(_, _)
LeastSets(E, F) ==
  LET D == DOMAIN F \cup { e.t : e \in { e \in E : e.f \in DOMAIN F } }
      G == [ k \in D |-> (IF k \in DOMAIN F THEN F[k] ELSE {})
                         \cup UNION { Passed(F, e) : e \in { e \in E : e.f \in DOMAIN F /\ e.t = k } } ]
  IN IF G = F THEN F ELSE LeastSets(E, G)

-----------------------------------------------------------------------------
(* Propagation of distances: an edge [f, t, w] passes on F[f] + w; smaller   *)
(* is more.                                                                  *)

Least(S) == CHOOSE x \in S : \A y \in S : x <= y

RECURSIVE LeastDist(_, _)
LeastDist(E, F) ==
  LET D == DOMAIN F \cup { e.t : e \in { e \in E : e.f \in DOMAIN F } }
      G == [ k \in D |-> Least((IF k \in DOMAIN F THEN {F[k]} ELSE {})
                               \cup { F[e.f] + e.w : e \in { e \in E : e.f \in DOMAIN F /\ e.t = k } }) ]
  IN IF G = F THEN F ELSE LeastDist(E, G)

-----------------------------------------------------------------------------
(* Repeated application of f (a sequence).                                   *)

RECURSIVE Orbit(_, _, _)
Orbit(f, x, n) == IF f[x] = x \/ n = 0 THEN x ELSE Orbit(f, f[x], n - 1)

\* Calls until the first that reports no change.
RECURSIVE CallsOf(_)
CallsOf(bs) == IF bs = << >> \/ ~bs[1] THEN 1 ELSE 1 + CallsOf(Tail(bs))
=============================================================================
