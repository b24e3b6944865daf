---------------------------- MODULE CollectMaps -----------------------------
(* Maps that collect sets of values (C19): relations between keys and values.*)
EXTENDS Integers, Sequences

VARIABLE cms         \* the maps: sets of <<key, value>>

CmInit == cms = << >>

Elems(s) == { s[i] : i \in DOMAIN s }
Of(m, k) == { p[2] : p \in { p \in cms[m] : p[1] = k } }

Create(pairs) == cms' = Append(cms, pairs)

\* All of the values vs go to key k; a change if one of them was not there.
Grow(m, k, vs, ch) ==
  /\ m \in DOMAIN cms
  /\ cms' = [cms EXCEPT ![m] = @ \cup { <<k, v>> : v \in vs }]
  /\ ch = (vs \ Of(m, k) # {})

Insert(m, k, v, ch)  == Grow(m, k, {v}, ch)
InsertAll(m, k, vs, ch) == Grow(m, k, Elems(vs), ch)
Copy(m, k, src, ch)  == Grow(m, k, Of(m, src), ch)
=============================================================================
