------------------------------ MODULE TypeMaps ------------------------------
(* Heterogeneous maps (C22): for each type of key a map of its own.          *)
EXTENDS Integers, Sequences

VARIABLE tms         \* the maps: functions from <<type, key>> to values

\* Keys as they compare: type 4 has one key, keys of type 5 are equal when
\* they are equal modulo 3.
Canon(t, k) == CASE t = 4 -> 0 [] t = 5 -> k % 3 [] OTHER -> k
Key(t, k)   == <<t, Canon(t, k)>>

Empty == [ x \in {} |-> 0 ]

TmInit(n) == tms = [ m \in 1..n |-> Empty ]

Put(f, x, v) == [ y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y] ]

\* The value found, 0 if there is none (values are positive).
Find(m, t, k) == IF Key(t, k) \in DOMAIN tms[m] THEN tms[m][Key(t, k)] ELSE 0

Set(m, t, k, v) == tms' = [tms EXCEPT ![m] = Put(@, Key(t, k), v)]

Has(m, t, k) == Key(t, k) \in DOMAIN tms[m]

Update(m, t, k, v) ==
  IF Has(m, t, k) THEN Set(m, t, k, v) ELSE UNCHANGED tms

\* All of map n moves to map m.
Merge(m, n) ==
  /\ m # n
  /\ tms' = [tms EXCEPT
       ![m] = [ y \in DOMAIN tms[m] \cup DOMAIN tms[n] |-> IF y \in DOMAIN tms[n] THEN tms[n][y] ELSE tms[m][y] ],
       ![n] = Empty]
=============================================================================
