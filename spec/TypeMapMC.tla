----------------------------- MODULE TypeMapMC ------------------------------
(* How the heterogeneous map is built: one sequence of entries for all types,*)
(* sorted by type first and by key then, searched by comparing.  Checked to  *)
(* refine TypeMaps; all short histories are printed for replay.              *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS N,         \* operations
          ByType,    \* FALSE: the broken variant that compares keys only
          Order      \* the order of the types, which is arbitrary: 1 or 2

VARIABLES es,        \* per map, the sorted entries: [t, k, v]
          hist, done

ivars == <<es, hist, done>>

Types == {2, 3, 5}
Keys == 1..2
Maps == 1..2

Canon(t, k) == CASE t = 4 -> 0 [] t = 5 -> k % 3 [] OTHER -> k

\* Keys of type 5 compare the other way round.
CmpKey(t, a, b) == LET x == Canon(t, a) y == Canon(t, b)
                   IN IF x = y THEN 0 ELSE IF (x < y) = (t # 5) THEN -1 ELSE 1
Cmp(a, b) == IF ByType /\ a.t # b.t THEN (IF a.t < b.t THEN -1 ELSE 1) * (3 - 2 * Order)
             ELSE CmpKey(a.t, a.k, b.k)

\* Binary search between lo and hi: <<found, place>>.
RECURSIVE Search(_, _, _, _)
Search(s, e, lo, hi) ==
  IF lo > hi THEN <<FALSE, lo>>
  ELSE LET mid == (lo + hi) \div 2
           c == Cmp(e, s[mid])
       IN IF c = 0 THEN <<TRUE, mid>>
          ELSE IF c < 0 THEN Search(s, e, lo, mid - 1) ELSE Search(s, e, mid + 1, hi)

Store(s, e) ==
  LET r == Search(s, e, 1, Len(s))
  IN IF r[1] THEN [s EXCEPT ![r[2]].v = e.v]      \* the key stays, the value goes
     ELSE SubSeq(s, 1, r[2] - 1) \o <<e>> \o SubSeq(s, r[2], Len(s))

RECURSIVE StoreAll(_, _)
StoreAll(s, rest) == IF rest = << >> THEN s ELSE StoreAll(Store(s, rest[1]), Tail(rest))

Look(s, t, k) == LET r == Search(s, [t |-> t, k |-> k], 1, Len(s)) IN IF r[1] THEN s[r[2]].v ELSE 0

\* The abstract maps.
tms == [ m \in DOMAIN es |->
          [ x \in { <<es[m][i].t, Canon(es[m][i].t, es[m][i].k)>> : i \in DOMAIN es[m] } |->
            (CHOOSE i \in DOMAIN es[m] : x = <<es[m][i].t, Canon(es[m][i].t, es[m][i].k)>>) ] ]
vals == [ m \in DOMAIN es |-> [ x \in DOMAIN tms[m] |-> es[m][tms[m][x]].v ] ]

A == INSTANCE TypeMaps WITH tms <- vals

Init == es = [ m \in Maps |-> << >> ] /\ hist = << >> /\ done = FALSE

Note(op) == hist' = Append(hist, op) /\ done' = FALSE
V == Len(hist) + 1

DoSet(m, t, k) == es' = [es EXCEPT ![m] = Store(@, [t |-> t, k |-> k, v |-> V])]
                  /\ Note([op |-> "set", m |-> m, t |-> t, k |-> k, v |-> V])
DoUpd(m, t, k) ==
  /\ LET r == Search(es[m], [t |-> t, k |-> k], 1, Len(es[m]))
     IN es' = IF r[1] THEN [es EXCEPT ![m][r[2]].v = V] ELSE es
  /\ Note([op |-> "upd", m |-> m, t |-> t, k |-> k, v |-> V])
DoMerge(m, n) == /\ es' = [es EXCEPT ![m] = StoreAll(@, es[n]), ![n] = << >>]
                 /\ Note([op |-> "merge", m |-> m, from |-> n])

Emit == /\ Len(hist) = N /\ ~done
        /\ PrintT(<<"BEH", ToJson(hist)>>)
        /\ done' = TRUE /\ UNCHANGED <<es, hist>>

Do == \/ \E m \in Maps, t \in Types, k \in Keys : DoSet(m, t, k) \/ DoUpd(m, t, k)
      \/ \E m, n \in Maps : m # n /\ DoMerge(m, n)

Next == (Len(hist) < N /\ Do) \/ Emit

Spec == Init /\ [][Next]_ivars

Sorted == \A m \in Maps : \A i \in 1..(Len(es[m]) - 1) : Cmp(es[m][i], es[m][i + 1]) = -1
Lookups == \A m \in Maps, t \in Types, k \in Keys : Look(es[m], t, k) = A!Find(m, t, k)

Refines == [][ \/ \E m \in Maps, t \in Types, k \in Keys : A!Set(m, t, k, V) \/ A!Update(m, t, k, V)
               \/ \E m, n \in Maps : A!Merge(m, n) ]_vals
=============================================================================
