------------------------------- MODULE Orders -------------------------------
(* Comparison matrices: rows and columns are the same things, entries -1, 0, *)
(* 1 (or other numbers for a refusal).                                       *)
EXTENDS Integers, Sequences

\* eq[a][b] is 1 if equal, 0 if not; same(a, b) says whether it should be.
EqMatrix(eq, n, same(_, _)) ==
  /\ Len(eq) = n
  /\ \A a, b \in 1..n : eq[a][b] = IF same(a, b) THEN 1 ELSE 0

\* A total order whose ties are exactly the equal ones.
OrderMatrix(cmp, n, same(_, _)) ==
  /\ Len(cmp) = n
  /\ \A a, b \in 1..n :
       /\ cmp[a][b] \in {-1, 0, 1}
       /\ cmp[a][b] = -cmp[b][a]
       /\ (cmp[a][b] = 0) <=> same(a, b)
  /\ \A a, b, c \in 1..n : cmp[a][b] <= 0 /\ cmp[b][c] <= 0 => cmp[a][c] <= 0
=============================================================================
