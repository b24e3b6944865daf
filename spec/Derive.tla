------------------------------- MODULE Derive -------------------------------
(* Derivability of parts of an input, and the packed alternatives of each   *)
(* part: the declarative meaning of parsing.                                 *)
(*                                                                           *)
(* For an input w of length n, E[i + 1][A] is the set of positions j such    *)
(* that A derives w[i+1..j].  It is computed from right to left; at each     *)
(* start position it is a least fixed point, because nullable nonterminals  *)
(* make a part depend on other parts with the same start.                    *)
EXTENDS Gram

RECURSIVE EndsFrom(_, _, _, _, _, _)
\* Ends of what the symbols seq[k..] can cover when they start at pos; cur is
\* the current approximation for start position i, E the table for later ones.
EndsFrom(seq, k, pos, w, cur, later) ==
  IF k > Len(seq) THEN {pos}
  ELSE IF IsTerm(seq[k])
       THEN IF pos < Len(w) /\ w[pos + 1] = seq[k]
            THEN EndsFrom(seq, k + 1, pos + 1, w, cur, later)
            ELSE {}
       ELSE LET A    == -seq[k]
                i    == Len(w) - Len(later)
                ends == IF pos = i THEN cur[A] ELSE later[pos - i][A]
            IN UNION { EndsFrom(seq, k + 1, p, w, cur, later) : p \in ends }

RECURSIVE TableFrom(_, _, _)
\* later: the table for start positions i+1..n, where i = n - Len(later)
TableFrom(P, w, later) ==
  IF Len(later) = Len(w) + 1 THEN later
  ELSE LET i == Len(w) - Len(later)
           Step(cur) == [ A \in DOMAIN P |->
                            UNION { EndsFrom(P[A][m].e, 1, i, w, cur, later)
                                  : m \in DOMAIN P[A] } ]
           new == Lfp(Step, [ A \in DOMAIN P |-> {} ])
       IN TableFrom(P, w, <<new>> \o later)

Table(P, w) == TableFrom(P, w, << >>)

Derives(E, A, i, j) == j \in E[i + 1][A]

\* Does x cover w[i+1..j]?
Covers(E, w, x, i, j) ==
  IF IsTerm(x) THEN j = i + 1 /\ j <= Len(w) /\ w[j] = x ELSE j \in E[i + 1][-x]

RECURSIVE SplitsFrom(_, _, _, _, _, _)
\* All position sequences <<p_k, ..., p_len, j>> such that seq[m] covers
\* w[p_m + 1 .. p_m+1] for all m >= k, starting at pos and ending at j.
SplitsFrom(E, w, seq, k, pos, j) ==
  IF k > Len(seq) THEN IF pos = j THEN {<<pos>>} ELSE {}
  ELSE IF k = Len(seq) THEN IF Covers(E, w, seq[k], pos, j) THEN {<<pos, j>>} ELSE {}
  ELSE LET nexts == IF IsTerm(seq[k])
                    THEN IF pos < j /\ w[pos + 1] = seq[k] THEN {pos + 1} ELSE {}
                    ELSE { p \in E[pos + 1][-seq[k]] : p <= j }
       IN UNION { { <<pos>> \o s : s \in SplitsFrom(E, w, seq, k + 1, p, j) } : p \in nexts }

\* The packed alternatives of A over w[i+1..j]: which production, with the
\* boundaries of its elements.
Packed(P, E, w, A, i, j) ==
  UNION { { <<m, s>> : s \in SplitsFrom(E, w, P[A][m].e, 1, i, j) }
        : m \in DOMAIN P[A] }

=============================================================================
