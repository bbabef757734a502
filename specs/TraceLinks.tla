------------------------------ MODULE TraceLinks ------------------------------
(* Stored frames of forward and backward runs on arbitrary scenes: the link    *)
(* discipline of Linking, and the bookkeeping of added particles.               *)
(* record: add, in: frames as supplied [corr, own], fw: frames as stored by     *)
(* the forward run [prev, next, corr, own, id, v] (id/v: per particle its       *)
(* candidates and their decision values), bw: after the backward run            *)
(* likewise without id, v; moved/outside: how many particles changed place, or   *)
(* were added outside the depth limits, by that run.                             *)
EXTENDS TraceLib
VARIABLE l
Mut(a, b) == /\ \A p \in DOMAIN a.next : a.next[p] >= 0 => a.next[p] < Len(b.prev) /\ b.prev[a.next[p] + 1] = p - 1
             /\ \A q \in DOMAIN b.prev : b.prev[q] >= 0 => b.prev[q] < Len(a.next) /\ a.next[b.prev[q] + 1] = q - 1
Values(f) == (\A p \in DOMAIN f.next : f.next[p] = -2 \/ f.next[p] >= 0) /\ (\A p \in DOMAIN f.prev : f.prev[p] >= -1)
OneToOne(s) == \A p \in DOMAIN s : \A q \in DOMAIN s : p < q => s[p] # s[q] \/ s[p] < 0
MinV(f, p) == CHOOSE v \in Range(f.v[p]) : \A w \in Range(f.v[p]) : v <= w
Wants(f, p) == {f.id[p][k] : k \in {k \in DOMAIN f.v[p] : f.v[p][k] = MinV(f, p)}}
\* p got the best of its candidates, or somebody at least as good has it
Won(f, p) == IF f.id[p] = <<>> THEN f.next[p] = -2
             ELSE IF f.next[p] # -2 THEN f.next[p] \in Wants(f, p)
             ELSE \E c \in Wants(f, p), k \in DOMAIN f.next : k # p /\ f.next[k] = c /\ MinV(f, k) <= MinV(f, p)
Forward(r) ==
  LET n == Len(r.fw) IN
  Failing({ <<"f-values", \A i \in 1..n : Values(r.fw[i])>>,
            <<"f-mutual", \A i \in 1..(n - 1) : Mut(r.fw[i], r.fw[i + 1])>>,
            <<"f-one-to-one", \A i \in 1..n : OneToOne(r.fw[i].next) /\ OneToOne(r.fw[i].prev)>>,
            <<"f-ends", (\A p \in DOMAIN r.fw[1].prev : r.fw[1].prev[p] = -1) /\ (\A p \in DOMAIN r.fw[n].next : r.fw[n].next[p] = -2)>>,
            <<"f-best-wins", \A i \in 1..(n - 1) : \A p \in DOMAIN r.fw[i].next : Won(r.fw[i], p)>> })
Backward(r) ==
  LET n == Len(r.bw) IN
  Failing({ <<"b-counts", \A i \in 1..n : /\ Len(r.bw[i].next) >= Len(r.fw[i].next) /\ Len(r.bw[i].prev) = Len(r.bw[i].next)
                                           /\ r.add = 0 => Len(r.bw[i].next) = Len(r.fw[i].next)>>,
            <<"b-values", \A i \in 1..n : Values(r.bw[i])>>,
            <<"b-mutual", \A i \in 1..(n - 1) : Mut(r.bw[i], r.bw[i + 1])>>,
            <<"b-one-to-one", \A i \in 1..n : OneToOne(r.bw[i].next) /\ OneToOne(r.bw[i].prev)>>,
            <<"b-kept", \A i \in 1..n : (\A p \in DOMAIN r.fw[i].next : r.fw[i].next[p] >= 0 => p \in DOMAIN r.bw[i].next /\ r.bw[i].next[p] = r.fw[i].next[p])
                                     /\ (\A p \in DOMAIN r.fw[i].prev : r.fw[i].prev[p] >= 0 => p \in DOMAIN r.bw[i].prev /\ r.bw[i].prev[p] = r.fw[i].prev[p])>>,
            <<"b-targets", r.add = 0 => \A i \in 1..n : r.bw[i].own = r.fw[i].own /\ r.bw[i].corr = r.fw[i].corr>> })
\* added particles (C07)
Added(r) ==
  LET one(a, b) ==
        LET m == Len(a.corr) n == Len(b.corr) IN
        /\ n >= m /\ (r.add = 0 => n = m) /\ b.moved = 0
        /\ \A p \in 1..m : b.corr[p] = a.corr[p]
        /\ \A p \in (m + 1)..n : /\ Cardinality({c \in DOMAIN b.own : b.corr[p][c] >= 0}) >= 2
                                 /\ \A c \in DOMAIN b.own : b.corr[p][c] >= 0 => b.own[c][b.corr[p][c] + 1] = p - 1 /\ a.own[c][b.corr[p][c] + 1] = -1
        /\ \A c \in DOMAIN a.own : \A t \in DOMAIN a.own[c] :
              b.own[c][t] # a.own[c][t] => b.own[c][t] >= m /\ b.own[c][t] < n /\ b.corr[b.own[c][t] + 1][c] = t - 1
      \* a backward run adds only as the predecessor of a particle, and nothing to the last frame
      sought(a, b) == \A p \in (Len(a.corr) + 1)..Len(b.corr) : b.next[p] >= 0 \/ b.prev[p] = -1
  IN Failing({ <<"added", \A i \in DOMAIN r.fw : one(r.in[i], r.fw[i])>>,
               <<"depth", \A i \in DOMAIN r.fw : r.fw[i].outside = 0>>,
               <<"b-added", \A i \in DOMAIN r.bw : one(r.fw[i], r.bw[i]) /\ sought(r.fw[i], r.bw[i])>>,
               <<"b-last", Len(r.bw[Len(r.bw)].corr) = Len(r.fw[Len(r.fw)].corr)>>,
               <<"b-depth", \A i \in DOMAIN r.bw : r.bw[i].outside = 0>> })
CONSTANT Part
Fails(r) == IF Part = "links" THEN Forward(r) \cup Backward(r) ELSE Added(r)
TraceInit == InitRegs /\ l = 1
TraceNext == l <= Len(Trace) /\ Judge(l, Fails(Trace[l])) /\ Consumed(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
===============================================================================
