---------------------------- MODULE TraceRanges -----------------------------
(* Conformance of recorded range operations (C17) and positions (C18).       *)
EXTENDS TraceBase, Ranges

Ps == INSTANCE Positions

vars == <<tr, l, texts, rs>>

Init == InitBase /\ RangesInit

\* Every range denotes what it should, before and after.
Shown(st) ==
  /\ Len(st) = Len(rs')
  /\ \A i \in DOMAIN rs' :
       LET t == SubSeq(texts'[rs'[i].x], rs'[i].a + 1, rs'[i].b)
       IN /\ st[i].s = t
          /\ st[i].len = Ps!ByteLen(t)
          /\ st[i].empty = (t = << >>)

Ok == Ev.out = "ok" /\ Ev.ok = TRUE
No == Ev.out = "ok" /\ Ev.ok = FALSE

Op ==
  \/ Ev.op = "new" /\ Ok /\ Create(Ev.text)
  \/ Ev.op = "clone" /\ Ok /\ Clone(Ev.r)
  \/ Ev.op = "read" /\ Ok /\ Advance(Ev.r, 1) /\ Ev.got = Passed(Ev.r, 1)
  \/ Ev.op = "read" /\ No /\ TooFar(Ev.r, 1)
  \/ Ev.op = "readm" /\ Ok /\ AdvanceM(Ev.r, 1) /\ Ev.got = Passed(Ev.r, 1)
  \/ Ev.op = "readm" /\ No /\ TooFar(Ev.r, 1)
  \/ Ev.op = "adv" /\ Ok /\ Advance(Ev.r, Ev.n) /\ Ev.got = Passed(Ev.r, Ev.n)
  \/ Ev.op = "adv" /\ No /\ TooFar(Ev.r, Ev.n)
  \/ Ev.op = "advm" /\ Ok /\ AdvanceM(Ev.r, Ev.n) /\ Ev.got = Passed(Ev.r, Ev.n)
  \/ Ev.op = "advm" /\ No /\ TooFar(Ev.r, Ev.n)
  \/ Ev.op = "cut" /\ Ok /\ Cut(Ev.r, Ev.q)
  \/ Ev.op = "cut" /\ Ev.out = "panic" /\ Refuse(Ev.r, Ev.q)

\* Positions: all of a text, or the ends of a range.
PosOk(t, e) ==
  /\ Len(e.starts) = Len(t) + 1 /\ Len(e.ends) = Len(t) + 1
  /\ \A i \in 0..Len(t) : LET p == Ps!PosOf(t, i) IN e.starts[i + 1] = p /\ e.ends[i + 1] = p
  /\ e.last = Ps!PosOf(t, Len(t))

EndsOk(r, e) == /\ e.a = Ps!PosOf(texts[r.x], r.a)
                /\ e.b = Ps!PosOf(texts[r.x], r.b)

\* A few places in a long text.
FarOk(u, n, k, o) ==
  LET len   == n * Len(u)
      bytes == n * Ps!ByteLen(u)
      byte  == Ps!FarPos(u, k)[3]
      Nth(i) == u[((i - 1) % Len(u)) + 1]
  IN /\ o.left = len - k /\ o.leftb = bytes - byte
     /\ o.passed = k /\ o.before = k /\ o.beforeb = byte
     /\ o.next = IF k < len THEN <<Nth(k + 1)>> ELSE << >>
     /\ o.last = IF k > 0 THEN <<Nth(k)>> ELSE << >>

FarAll(e) ==
  /\ Len(e.seen) = Len(e.at)
  /\ \A i \in DOMAIN e.at :
       /\ FarOk(e.unit, e.times, e.at[i], e.seen[i])
       /\ e.op = "farpos" => /\ e.seen[i].a = Ps!FarPos(e.unit, e.at[i])
                            /\ e.seen[i].b = Ps!FarPos(e.unit, e.at[i])

Where ==
  /\ Ok /\ Fails
  /\ \/ Ev.op \in {"far", "farpos"} /\ FarAll(Ev) = TRUE
     \/ Ev.op = "pos" /\ PosOk(Ev.text, Ev) = TRUE
     \/ Ev.op = "ends" /\ Ev.r \in DOMAIN rs /\ EndsOk(rs[Ev.r], Ev) = TRUE

Operate == More /\ (Op \/ Where) /\ Shown(Ev.st) = TRUE /\ Step

Next == \/ Operate
        \/ ~ENABLED Operate /\ Reject /\ UNCHANGED rvars
        \/ Accept /\ UNCHANGED rvars

Spec == Init /\ [][Next]_vars
=============================================================================
