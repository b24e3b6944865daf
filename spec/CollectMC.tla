----------------------------- MODULE CollectMC ------------------------------
(* How collecting maps are built: from keys to sets, where a key can have an *)
(* empty set, with the cases of a key that is there and one that is not.     *)
(* Checked to refine CollectMaps; short histories are printed for replay.    *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS N,
          AllValues  \* FALSE: the broken variant whose report is that of the last value

VARIABLES maps,      \* functions from keys to sets
          rep,       \* the last report, with what it was about
          hist, done

ivars == <<maps, rep, hist, done>>

Keys == 1..2
Vals == 1..2
Lists == {<< >>, <<1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>}

cms == [ m \in DOMAIN maps |-> UNION { { <<k, v>> : v \in maps[m][k] } : k \in DOMAIN maps[m] } ]

A == INSTANCE CollectMaps

Note(op) == hist' = Append(hist, op) /\ done' = FALSE

Init == maps = << >> /\ rep = FALSE /\ hist = << >> /\ done = FALSE

Put(f, x, v) == [ y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y] ]

New == /\ maps' = Append(maps, [ x \in {} |-> {} ]) /\ rep' = FALSE
       /\ Note([op |-> "new"])

Insert(m, k, v) ==
  /\ IF k \in DOMAIN maps[m]
     THEN rep' = (v \notin maps[m][k]) /\ maps' = [maps EXCEPT ![m][k] = @ \cup {v}]
     ELSE rep' = TRUE /\ maps' = [maps EXCEPT ![m] = Put(@, k, {v})]
  /\ Note([op |-> "insert", m |-> m, k |-> k, v |-> v])

\* One by one: <<set, report>>.
RECURSIVE Each(_, _)
Each(x, vs) ==
  IF vs = << >> THEN x
  ELSE LET c == vs[1] \notin x[1]
       IN Each(<<x[1] \cup {vs[1]}, IF AllValues THEN x[2] \/ c ELSE c>>, Tail(vs))

InsertAll(m, k, vs) ==
  /\ IF k \in DOMAIN maps[m]
     THEN LET r == Each(<<maps[m][k], FALSE>>, vs)
          IN rep' = r[2] /\ maps' = [maps EXCEPT ![m][k] = r[1]]
     ELSE IF vs = << >> THEN rep' = FALSE /\ UNCHANGED maps
     ELSE rep' = TRUE /\ maps' = [maps EXCEPT ![m] = Put(@, k, A!Elems(vs))]
  /\ Note([op |-> "iter", m |-> m, k |-> k, vs |-> vs])

\* Leaves an empty set behind where there is nothing to copy.
Copy(m, k, src) ==
  /\ IF k = src THEN rep' = FALSE /\ UNCHANGED maps
     ELSE LET old == IF k \in DOMAIN maps[m] THEN maps[m][k] ELSE {}
              new == IF src \in DOMAIN maps[m] THEN maps[m][src] ELSE {}
          IN rep' = (new \ old # {}) /\ maps' = [maps EXCEPT ![m] = Put(@, k, old \cup new)]
  /\ Note([op |-> "copy", m |-> m, k |-> k, src |-> src])

Do == \/ Len(maps) < 1 /\ New
      \/ \E m \in DOMAIN maps, k \in Keys :
           \/ \E v \in Vals : Insert(m, k, v)
           \/ \E vs \in Lists : InsertAll(m, k, vs)
           \/ \E src \in Keys : Copy(m, k, src)

Emit == /\ Len(hist) = N /\ ~done
        /\ PrintT(<<"BEH", ToJson(hist)>>)
        /\ done' = TRUE /\ UNCHANGED <<maps, rep, hist>>

Next == (Len(hist) < N /\ Do) \/ Emit
Spec == Init /\ [][Next]_ivars

\* Each operation of the history is one of CollectMaps, with the same report.
Last == hist'[Len(hist')]
Refines == [][ done' \/ CASE Last.op = "new"    -> A!Create({})
                 [] Last.op = "insert" -> A!Insert(Last.m, Last.k, Last.v, rep')
                 [] Last.op = "iter"   -> A!InsertAll(Last.m, Last.k, Last.vs, rep')
                 [] Last.op = "copy"   -> A!Copy(Last.m, Last.k, Last.src, rep') ]_ivars
=============================================================================
