------------------------------ MODULE TraceTrack ------------------------------
(* Whole tracking runs of the real code, step by step against Track.            *)
EXTENDS TraceLib
VARIABLE l
K == INSTANCE Track

Frame(f) == [old |-> Len(f.x), x |-> f.x, prev |-> f.prev, corr |-> f.corr, tg |-> f.tg]
Empty(r) == [old |-> 0, x |-> <<>>, prev |-> <<>>, corr |-> <<>>, tg |-> [c \in DOMAIN r.g.cams |-> <<>>]]
In(r, n) == Frame(r.frames[n - r.first + 1])
\* what was stored for frame n (stored in the order first, first + 1, ... or the reverse)
Out(r, n) == r.out[IF r.kind = "f" THEN n - r.first + 1 ELSE r.last - n]

\* particles and references of a stored frame
SameAs(r, o, f) ==
  Failing({ <<"count", Len(o.x) = Len(f.x)>>,
            <<"positions", Len(o.x) = Len(f.x) => \A h \in DOMAIN f.x : \A k \in 1..3 : Abs(o.x[h][k] - 500 * f.x[h][k]) <= 2>>,
            <<"predecessors", o.prev = f.prev>>,
            <<"targets-of-particles", o.corr = f.corr>>,
            <<"particles-of-targets", Len(o.own) = Len(f.tg) /\ \A c \in DOMAIN f.tg : o.own[c] = [i \in DOMAIN f.tg[c] |-> f.tg[c][i][3]]>> })
At(s, n) == {w \o "@" \o ToString(n) : w \in s}
PrevOf(f2, next) == [f2 EXCEPT !.prev = [p \in DOMAIN f2.x |->
                       IF \E h \in DOMAIN next : next[h] = p - 1 THEN (CHOOSE h \in DOMAIN next : next[h] = p - 1) - 1 ELSE -1]]

\* one step with a given look-ahead: [bad, amb, f2, f3]
Step(r, s, f0, f1, f2, f3) ==
  LET m == K!ForwardStep(r.g, f0, f1, f2, f3)
      next == Out(r, s).next
      own == SameAs(r, Out(r, s), f1)
      links == IF Len(next) # Len(f1.x) THEN {"count"}
               ELSE IF \E h \in DOMAIN next : next[h] \notin -2..(Len(m.f2.x) - 1) \/ next[h] = -1 THEN {"successor-exists"}
               ELSE IF \E h, k \in DOMAIN next : h # k /\ next[h] = next[k] /\ next[h] # -2 THEN {"one-to-one"}
               ELSE IF K!LinksOk(m.all, next) THEN {} ELSE {"links"}
  IN [bad |-> IF m.amb THEN own ELSE own \cup links, amb |-> m.amb,
      f2 |-> IF links \cap {"count", "successor-exists", "one-to-one"} = {} THEN PrevOf(m.f2, next) ELSE m.f2, f3 |-> m.f3]

RECURSIVE RunForward(_, _, _, _, _, _)
\* fm: the frame two before s; f0, f1, f2: frames s-1, s, s+1
RunForward(r, s, fm, f0, f1, f2) ==
  IF s = r.last THEN At(SameAs(r, Out(r, s), f1) \cup (IF \A h \in DOMAIN Out(r, s).next : Out(r, s).next[h] = -2 THEN {} ELSE {"links"}), s)
  ELSE LET f3 == IF s + 2 <= r.last THEN In(r, s + 2) ELSE Empty(r)
           a == Step(r, s, f0, f1, f2, f3)
           \* beyond the end there is nothing to look at; the real code looks at what is left in the buffer (known finding)
           b == IF s = r.last - 1 /\ r.stale = 1 /\ a.bad # {} THEN Step(r, s, f0, f1, f2, fm) ELSE a
           t == IF b.bad = {} THEN b ELSE a
       IN IF t.bad # {} THEN At(t.bad, s)
          ELSE IF t.amb THEN (IF PrintT("AMBIG") THEN {} ELSE {})
          ELSE RunForward(r, s + 1, f0, f1, t.f2, t.f3)

Order(r) == IF Len(r.out) # (IF r.kind = "f" THEN r.last - r.first + 1 ELSE r.last - r.first) THEN {"stored-frames"}
            ELSE IF \A k \in DOMAIN r.out : r.out[k].n = (IF r.kind = "f" THEN r.first + k - 1 ELSE r.last - k) THEN {} ELSE {"stored-order"}

\* ---- backward: frame n as read has links prev0, next0; particles added to it follow those read
Read(r, n) == r.frames[n - r.first + 1]
\* a step at s with frames f0 = s + 1, f1 = s as they are now: [bad, amb, f2: frame s - 1 afterwards]
BackStep(r, s, f0, f1) ==
  LET b2 == Read(r, s - 1)
      next1 == Out(r, s).next      \* completed by the step before
      prev1 == Out(r, s).prev
      next2 == Out(r, s - 1).next
      open == {h \in DOMAIN f1.x : next1[h] >= 0 /\ f1.prev[h] = -1}
      m == K!BackwardStep(r.g, f0, f1, Frame(b2), next1)
      read2(p) == IF p <= Len(b2.x) THEN b2.next[p] ELSE -2
      \* p is free for h: no successor read, none given to an earlier particle
      free(h, p) == read2(p + 1) = -2 /\ \A k \in open : k < h => prev1[k] # p
      joins(h, p) == IF m.f2.prev[p + 1] = -1 THEN "y"
                     ELSE K!Joins(r.g, h > f1.old \/ next1[h] >= f0.old, f0.x[next1[h] + 1], f1.x[h], m.f2.x[p + 1], Read(r, s - 2).x[m.f2.prev[p + 1] + 1])
      okh(h) == LET c == m.all[h] IN
                IF c = <<>> THEN prev1[h] = -1
                ELSE IF prev1[h] # -1 THEN prev1[h] \in K!Choice(c) /\ free(h, prev1[h]) /\ joins(h, prev1[h]) # "n"
                ELSE \E p \in K!Choice(c) : ~free(h, p) \/ joins(h, p) # "y"
      range == \A h \in DOMAIN f1.x : prev1[h] \in -1..(Len(m.f2.x) - 1)
      bad == IF Len(next1) # Len(f1.x) \/ Len(prev1) # Len(f1.x) \/ \E h \in open : next1[h] >= Len(f0.x) THEN {"count"}
             ELSE IF m.amb THEN {}
             ELSE IF Len(next2) # Len(m.f2.x) THEN {"count-before"}
             ELSE Failing({ <<"kept-predecessors", \A h \in DOMAIN f1.x \ open : prev1[h] = f1.prev[h]>>,
                            <<"range", range>>,
                            <<"kept-successors", \A p \in DOMAIN m.f2.x : read2(p) # -2 => next2[p] = read2(p)>>,
                            <<"mutual", \A p \in DOMAIN m.f2.x : read2(p) = -2 =>
                                \/ next2[p] = -2 /\ ~\E h \in open : prev1[h] = p - 1
                                \/ next2[p] >= 0 /\ (next2[p] + 1) \in open /\ {h \in open : prev1[h] = p - 1} = {next2[p] + 1}>>,
                            <<"links", range => \A h \in open : okh(h)>> })
  IN [bad |-> bad, amb |-> "count" \notin bad /\ m.amb, f2 |-> IF bad = {} THEN m.f2 ELSE Frame(b2)]
RECURSIVE RunBack(_, _, _, _)
RunBack(r, s, f0, f1) ==
  LET kept == SameAs(r, Out(r, s), f1) \ {"predecessors"} IN
  IF kept # {} THEN At(kept, s)
  ELSE IF s = r.first THEN At(IF Out(r, s).prev = f1.prev THEN {} ELSE {"kept-predecessors"}, s)
  ELSE LET t == BackStep(r, s, f0, f1)
       IN IF t.bad # {} THEN At(t.bad, s)
          ELSE IF t.amb THEN (IF PrintT("AMBIG") /\ (r.g.add = 1 \/ s - 1 = r.first) THEN {} ELSE RunBack(r, s - 1, f1, Frame(Read(r, s - 1))))
          ELSE RunBack(r, s - 1, f1, t.f2)

Fails(r) ==
  IF r.calok = 0 THEN {"projection"}
  ELSE IF Order(r) # {} THEN Order(r)
  ELSE IF r.kind = "f" THEN RunForward(r, r.first, Empty(r), Empty(r), [In(r, r.first) EXCEPT !.prev = [h \in DOMAIN @ |-> -1]],
                                       [In(r, r.first + 1) EXCEPT !.prev = [h \in DOMAIN @ |-> -1]])
  ELSE RunBack(r, r.last - 1, In(r, r.last), In(r, r.last - 1))

TraceInit == InitRegs /\ l = 1
TraceNext == l <= Len(Trace) /\ Judge(l, Fails(Trace[l])) /\ Consumed(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
