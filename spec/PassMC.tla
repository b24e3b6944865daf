------------------------------- MODULE PassMC -------------------------------
(* How contexts work: a cache with a marker for what is being computed.  All *)
(* configurations of NP analyses, with one or two contexts; checked: what    *)
(* the cache decides is what Passes allows, every query ends.  Configurations*)
(* are printed, with queries, for replay.                                    *)
EXTENDS Passes, TLC, Json

CONSTANTS NP, NC, MaxDeps,
          NQ,        \* queries
          Unmark,    \* FALSE: the broken variant that keeps the marker of a
                     \* failed analysis (as the code did)
          Marks      \* FALSE: the broken variant without markers

VARIABLES cache,     \* <<c, p>> to "marker" or a serial number
          serial, qs, bad, over

mvars == <<conf, stack, res, failed, cache, serial, qs, bad, over>>

P == 1..NP
DepKinds == { <<o, p>> : o \in 0..(NC - 1), p \in P }
DepLists == UNION { [1..n -> DepKinds] : n \in 0..MaxDeps }
Fails == {"no", "before", "after", "swallow"}

Confs == [p : [P -> [deps : DepLists, fail : Fails]], starts : {[ i \in 1..NC |-> i ]}]

Init == /\ conf \in Confs
        /\ \A i \in P : conf.p[i].fail = "before" => conf.p[i].deps = << >>
        /\ PassInit /\ cache = << >> /\ serial = 0
        /\ qs = << >> /\ bad = FALSE /\ over = FALSE

Entry(c, p) == IF <<c, p>> \in DOMAIN cache THEN cache[<<c, p>>] ELSE 0
Marker == -1

Same == UNCHANGED <<cache, serial, qs, over>>

\* The cache decides; bad notes that Passes would not allow it.
Try(a) == a /\ bad' = FALSE
Wrong == bad' = TRUE /\ UNCHANGED pvars

\* Queries from outside; the first NP * NC of them ask for everything.
Ask(c, p) == /\ stack = << >> /\ Len(qs) < NQ
             /\ Get(c, p) /\ qs' = Append(qs, <<c, p>>)
             /\ UNCHANGED <<cache, serial, bad, over>>
AskDep == /\ stack # << >> /\ HasNext(Top)
          /\ Get(NextDep(Top)[1], NextDep(Top)[2])
          /\ UNCHANGED <<cache, serial, qs, bad, over>>

Decide ==
  /\ stack # << >> /\ Top.ph = "asked"
  /\ LET c == Top.c
         p == Top.p
         e == Entry(c, p)
     IN CASE e = 0 ->
               /\ IF ENABLED Run(c, p, c) THEN Try(Run(c, p, c)) ELSE Wrong
               /\ cache' = IF Marks THEN Put(cache, <<c, p>>, Marker) ELSE cache
               /\ over' = (~ENABLED Run(c, p, c))
               /\ UNCHANGED <<serial, qs>>
          [] e = Marker ->
               /\ IF ENABLED Panic THEN Try(Panic) ELSE Wrong
               /\ over' = TRUE
               /\ UNCHANGED <<cache, serial, qs>>
          [] OTHER ->
               /\ IF ENABLED GotOk(c, p, e, c) THEN Try(GotOk(c, p, e, c)) ELSE Wrong
               /\ over' = (~ENABLED GotOk(c, p, e, c))
               /\ UNCHANGED <<cache, serial, qs>>

Finish ==
  /\ stack # << >> /\ Top.ph = "runs" /\ ~HasNext(Top)
  /\ LET c == Top.c
         p == Top.p
     IN IF ErrOf(Top) = 0
        THEN /\ serial' = serial + 1
             /\ Done(c, p, "ok", serial + 1)
             /\ cache' = Put(cache, <<c, p>>, serial + 1)
        ELSE /\ Done(c, p, "err", ErrOf(Top))
             /\ cache' = IF Unmark THEN [ x \in DOMAIN cache \ {<<c, p>>} |-> cache[x] ] ELSE cache
             /\ UNCHANGED serial
  /\ UNCHANGED <<qs, bad, over>>

Answer ==
  /\ stack # << >> /\ Top.ph = "ended"
  /\ IF Top.err = 0 THEN GotOk(Top.c, Top.p, Top.v, Top.c) ELSE GotErr(Top.c, Top.p, Top.v)
  /\ UNCHANGED <<cache, serial, qs, bad, over>>

Emit == /\ stack = << >> /\ Len(qs) = NQ /\ ~over
        /\ PrintT(<<"BEH", ToJson([passes |-> conf.p, starts |-> conf.starts, q |-> qs])>>)
        /\ over' = TRUE /\ UNCHANGED <<conf, stack, res, failed, cache, serial, qs, bad>>

\* A panic ends the behaviour; print it too.
EmitPanic == /\ over /\ stack # << >> /\ ~bad
             /\ PrintT(<<"BEH", ToJson([passes |-> conf.p, starts |-> conf.starts, q |-> qs])>>)
             /\ stack' = << >> /\ UNCHANGED <<conf, res, failed, cache, serial, qs, bad, over>>

Work == AskDep \/ Decide \/ Finish \/ Answer

Next == \/ ~over /\ (Work \/ \E c \in 1..NC, p \in P : Ask(c, p))
        \/ Emit \/ EmitPanic

Spec == Init /\ [][Next]_mvars /\ WF_mvars(Next)

Allowed == ~bad
\* No query stays unanswered.
Ends == <>(over \/ (stack = << >> /\ Len(qs) = NQ))
Bounded == Len(stack) <= NP * NC + 1
\* The cache is right between queries.
CacheOk == (stack = << >> /\ ~over) => (DOMAIN cache = DOMAIN res /\ \A x \in DOMAIN res : cache[x] = res[x])
=============================================================================
