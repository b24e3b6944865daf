---------------------------- MODULE TraceCollect ----------------------------
(* Conformance of recorded collecting maps with CollectMaps (C19).           *)
EXTENDS TraceBase, CollectMaps

vars == <<tr, l, cms>>

Init == InitBase /\ CmInit

\* Each pair once.
Listed(got, rel) == Elems(got) = rel /\ \A i, j \in DOMAIN got : i # j => got[i] # got[j]

AnyOf(bs) == \E i \in DOMAIN bs : bs[i]

Op == \/ Ev.op = "new" /\ Create({})
      \/ Ev.op = "seed" /\ Create(Elems(Ev.kvs))
      \/ Ev.op = "insert" /\ Insert(Ev.m, Ev.k, Ev.v, Ev.ch)
      \/ Ev.op = "iter" /\ InsertAll(Ev.m, Ev.k, Ev.vs, Ev.ch)
      \/ Ev.op = "copy" /\ Copy(Ev.m, Ev.k, Ev.src, Ev.ch)
      \/ Ev.op = "into" /\ UNCHANGED cms /\ Listed(Ev.got, cms[Ev.m]) = TRUE
      \/ Ev.op = "pairs" /\ UNCHANGED cms /\ Listed(Ev.got, Elems(Ev.kvs)) = TRUE
      \* The combinations of reports.
      \/ /\ Ev.op = "changes" /\ UNCHANGED cms
         /\ (Ev.ch = AnyOf(Ev.bs) /\ Ev.calls = Len(Ev.bs)
             /\ \A i \in DOMAIN Ev.join : Ev.join[i] = AnyOf(Ev.bs)) = TRUE
         /\ Ev.only = (Len(Ev.bs) = 1)

Shown(e) ==
  /\ Len(e.st) = Len(cms')
  /\ \A m \in DOMAIN cms' :
       /\ Listed(e.st[m], cms'[m])
       /\ \A k \in DOMAIN e.get[m] :
            Elems(e.get[m][k]) = { p[2] : p \in { p \in cms'[m] : p[1] = k - 1 } }

Operate == More /\ Ev.out = "ok" /\ Op /\ ("st" \in DOMAIN Ev => Shown(Ev)) = TRUE /\ Step

Next == \/ Operate
        \/ ~ENABLED Operate /\ Reject /\ UNCHANGED cms
        \/ Accept /\ UNCHANGED cms

Spec == Init /\ [][Next]_vars
=============================================================================
