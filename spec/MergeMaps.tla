----------------------------- MODULE MergeMaps ------------------------------
(* Merging maps (C25): under each key the first value stored merged with all *)
(* later ones.  The values of the scenarios are sequences; merging appends   *)
(* what is not there and reports a change if there was such.                 *)
EXTENDS Integers, Sequences

VARIABLE mms         \* the maps: functions from keys to values

MmInit(n) == mms = [ m \in 1..n |-> [ x \in {} |-> << >> ] ]

RECURSIVE Merged(_, _)
Merged(a, b) == IF b = << >> THEN a
                ELSE Merged(IF \E i \in DOMAIN a : a[i] = b[1] THEN a ELSE Append(a, b[1]), Tail(b))
MergeChanges(a, b) == \E j \in DOMAIN b : \A i \in DOMAIN a : a[i] # b[j]

Put(f, x, v) == [ y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y] ]

Store(m, k, v, ch) ==
  IF k \in DOMAIN mms[m]
  THEN /\ mms' = [mms EXCEPT ![m] = Put(@, k, Merged(mms[m][k], v))]
       /\ ch = MergeChanges(mms[m][k], v)
  ELSE /\ mms' = [mms EXCEPT ![m] = Put(@, k, v)]
       /\ ch = TRUE

\* Storing the entry of another map.
StoreEntry(m, n, k, ch) ==
  IF k \in DOMAIN mms[n] THEN Store(m, k, mms[n][k], ch) ELSE UNCHANGED mms /\ ch = FALSE
=============================================================================
