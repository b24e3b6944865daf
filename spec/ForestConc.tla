----------------------------- MODULE ForestConc -----------------------------
(* The store of parse forests used by several threads (C14): operations take *)
(* one lock for reading or writing, possibly several times, one after the    *)
(* other.  The lock prefers writers: nobody begins to read while one waits,  *)
(* as in the locks of the standard library.  Checked for all programs and    *)
(* all schedules: each operation takes effect at one moment, and all end.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS NT,        \* threads
          NOps,      \* operations of each
          Kinds,     \* how many of the operations below are used
          Variant    \* "code", or a broken one:
                     \*  "heldwrite": the lock is held while nodes are consumed
                     \*  "heldread":  a reader reads again inside
                     \*  "gapall":    add_all reads first, and writes then
                     \*  "gapalt":    an alternative is looked up first

Threads == 1..NT
Nodes == 1..2
Cons == 1..2         \* contents

Add(n, c) == [op |-> "add", n |-> n, con |-> c]
All(n, m) == [op |-> "all", n |-> n, m |-> m]
OpSeq == <<Add(1, 1), All(1, 2), All(2, 1), [op |-> "lazy"], [op |-> "read", n |-> 1],
           Add(2, 1), Add(1, 2), Add(2, 2), [op |-> "read", n |-> 2], [op |-> "dot", n |-> 1]>>
Ops == { OpSeq[i] : i \in 1..Kinds }

Write(body) == <<"wantW", "enterW">> \o body \o <<"exitW">>
Read(body)  == <<"enterR">> \o body \o <<"exitR">>

\* What an operation does, step by step.
Alt == IF Variant = "gapalt" THEN Read(<<"look">>) \o Write(<<"insert">>) ELSE Write(<<"look", "insert">>)
Steps(o) ==
  CASE o.op = "add"  -> Alt \o Write(<<"addalt">>)
    [] o.op = "all"  -> IF Variant = "gapall" THEN Read(<<"snap">>) \o Write(<<"addsnap">>)
                        ELSE Write(<<"snap", "addsnap">>)
    [] o.op = "read" -> Read(<<"see">>) \o Read(<< >>)
    \* A branch whose nodes are made while they are consumed.
    [] o.op = "lazy" -> IF Variant = "heldwrite" THEN Write(Write(<<"make">>) \o <<"make">>)
                        ELSE Write(<<"make">>) \o Write(<<"make">>)
    [] o.op = "dot"  -> IF Variant = "heldread" THEN Read(Read(<<"see">>)) ELSE Read(<<"see">>) \o Read(<< >>)

VARIABLES prog,      \* per thread, its operations
          at,        \* per thread, the number of the operation
          todo,      \* per thread, the steps of it that are left
          readers,   \* per thread, how often it holds the lock for reading
          writer,    \* the thread that holds it for writing, 0 if none
          waiting,   \* the threads that wait for that
          tab, sets, \* contents by number; numbers in each node
          reg, snap, \* per thread: a number, a set of numbers
          abs,       \* what each node should hold: contents
          wrong      \* an operation did not do what it should at its moment

lock == <<readers, writer, waiting>>
data == <<tab, sets, abs, wrong>>
vars == <<prog, at, todo, lock, data, reg, snap>>

\* Threads are alike, so the programs are taken in order only.
Rank(p) == LET R[i \in 0..NOps] == IF i = 0 THEN 0 ELSE R[i - 1] * Kinds + p[i] - 1 IN R[NOps]
Programs == { [ t \in Threads |-> [ i \in 1..NOps |-> OpSeq[p[t][i]] ] ] :
              p \in { q \in [Threads -> [1..NOps -> 1..Kinds]] : \A t \in Threads : t = 1 \/ Rank(q[t - 1]) <= Rank(q[t]) } }

Init == /\ prog \in Programs
        /\ at = [ t \in Threads |-> 1 ]
        /\ todo = [ t \in Threads |-> Steps(prog[t][1]) ]
        /\ readers = [ t \in Threads |-> 0 ] /\ writer = 0 /\ waiting = {}
        /\ tab = << >> /\ sets = [ n \in Nodes |-> {} ]
        /\ reg = [ t \in Threads |-> 0 ] /\ snap = [ t \in Threads |-> {} ]
        /\ abs = [ n \in Nodes |-> {} ] /\ wrong = FALSE

Op(t) == prog[t][at[t]]
Is(t, s) == todo[t] # << >> /\ todo[t][1] = s
Go(t) == todo[t] # << >> /\ todo' = [todo EXCEPT ![t] = Tail(@)] /\ UNCHANGED <<prog, at>>

WantW(t)  == Is(t, "wantW") /\ waiting' = waiting \cup {t} /\ UNCHANGED <<readers, writer, data, reg, snap>>
EnterW(t) == /\ Is(t, "enterW") /\ writer = 0 /\ \A u \in Threads : readers[u] = 0
             /\ writer' = t /\ waiting' = waiting \ {t} /\ UNCHANGED <<readers, data, reg, snap>>
ExitW(t)  == Is(t, "exitW") /\ writer' = 0 /\ UNCHANGED <<readers, waiting, data, reg, snap>>
EnterR(t) == /\ Is(t, "enterR") /\ writer = 0 /\ waiting = {}
             /\ readers' = [readers EXCEPT ![t] = @ + 1] /\ UNCHANGED <<writer, waiting, data, reg, snap>>
ExitR(t)  == Is(t, "exitR") /\ readers' = [readers EXCEPT ![t] = @ - 1] /\ UNCHANGED <<writer, waiting, data, reg, snap>>

\* The number of a content: 0 if it has none yet.
Look(t) == /\ Is(t, "look")
           /\ reg' = [reg EXCEPT ![t] = IF \E i \in DOMAIN tab : tab[i] = Op(t).con
                                        THEN CHOOSE i \in DOMAIN tab : tab[i] = Op(t).con ELSE 0]
           /\ UNCHANGED <<lock, data, snap>>
Insert(t) == /\ Is(t, "insert")
             /\ IF reg[t] = 0
                THEN tab' = Append(tab, Op(t).con) /\ reg' = [reg EXCEPT ![t] = Len(tab) + 1]
                ELSE UNCHANGED <<tab, reg>>
             /\ UNCHANGED <<lock, sets, abs, wrong, snap>>

Contents(S) == { tab[i] : i \in S }

\* Numbers S go to node n, which should mean that contents C do.
Put(n, S, C) ==
  /\ sets' = [sets EXCEPT ![n] = @ \cup S]
  /\ abs' = [abs EXCEPT ![n] = @ \cup C]
  /\ wrong' = (wrong \/ (S \subseteq sets[n]) # (C \subseteq abs[n]))
  /\ UNCHANGED <<lock, tab, reg, snap>>

AddAlt(t)  == Is(t, "addalt") /\ Put(Op(t).n, {reg[t]}, {Op(t).con})
Snap(t)    == Is(t, "snap") /\ snap' = [snap EXCEPT ![t] = sets[Op(t).m]] /\ UNCHANGED <<lock, data, reg>>
AddSnap(t) == Is(t, "addsnap") /\ Put(Op(t).n, snap[t], abs[Op(t).m])
See(t)     == /\ Is(t, "see")
              /\ wrong' = (wrong \/ Contents(sets[Op(t).n]) # abs[Op(t).n])
              /\ UNCHANGED <<lock, tab, sets, abs, reg, snap>>
Make(t)    == Is(t, "make") /\ UNCHANGED <<lock, data, reg, snap>>

\* The next operation.
Begin(t) == /\ todo[t] = << >> /\ at[t] < NOps
            /\ at' = [at EXCEPT ![t] = @ + 1]
            /\ todo' = [todo EXCEPT ![t] = Steps(prog[t][at[t] + 1])]
            /\ UNCHANGED <<prog, lock, data, reg, snap>>

StepOf(t) ==
  \/ Begin(t)
  \/ Go(t) /\ (WantW(t) \/ EnterW(t) \/ ExitW(t) \/ EnterR(t) \/ ExitR(t) \/ Look(t) \/ Insert(t)
               \/ AddAlt(t) \/ Snap(t) \/ AddSnap(t) \/ See(t) \/ Make(t))

Finished == \A t \in Threads : todo[t] = << >> /\ at[t] = NOps

Next == (\E t \in Threads : StepOf(t)) \/ (Finished /\ UNCHANGED vars)

Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(StepOf(t))

Atomic == ~wrong /\ \A n \in Nodes : Contents(sets[n]) = abs[n]
Interned == \A i, j \in DOMAIN tab : tab[i] = tab[j] => i = j
\* The lock is one.
LockOk == /\ writer # 0 => \A t \in Threads : readers[t] = 0
AllEnd == <>Finished

\* Generation: the programs.
GenInit == Init /\ PrintT(<<"BEH", ToJson(prog)>>)
GenSpec == GenInit /\ [][FALSE]_vars
=============================================================================
