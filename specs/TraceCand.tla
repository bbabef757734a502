----------------------------- MODULE TraceCand -----------------------------
EXTENDS TraceLib
VARIABLE l
C == INSTANCE CandSearch WITH MaxSeen <- 0, Dists <- {}, d <- <<>>, k <- 1, best <- <<>>

T(r, i) == IF r.gen = 0 THEN r.list[i]
           ELSE <<((i - 1) * r.m) % r.w, (i - 1) \div r.k, IF (i - 1) % r.t = 0 THEN -1 ELSE i - 1>>
Eligible(r) == {i \in 1..r.n : /\ C!InWindow(T(r, i), r.imx, r.imy, r.c, r.win)
                               /\ (T(r, i)[3] = -1) = (r.kind = "rest")}
Got(r) == [i \in 1..Cardinality({j \in DOMAIN r.p : r.p[j] # -999}) |-> r.p[i] + 1]
FailsSearch(r) ==
  LET S == IF C!CentreIn(r.imx, r.imy, r.c) THEN Eligible(r) ELSE {}
      DD(i) == C!Dist2(T(r, i), r.c)
      g == Got(r)
  IN Failing({ <<"count", r.ret = Len(g)>>,
               <<"unused-last", \A i \in DOMAIN r.p : i > Len(g) => r.p[i] = -999>>,
               <<"known-targets", \A i \in DOMAIN g : g[i] \in 1..r.n>>,
               <<"nearest-first", C!NearestFirst(g, S, DD, IF r.kind = "rest" THEN 1 ELSE 4)>> })
FailsFreq(r) ==
  LET out == [i \in 1..r.ret |-> r.out[i][1]]
  IN Failing({ <<"ranked", r.ret <= Len(r.out) /\ C!Ranked(r.ids, out)>>,
               <<"frequency", \A i \in 1..r.ret : r.out[i][2] = C!Freq(r.ids, out[i])>>,
               <<"cameras", \A i \in 1..r.ret : \A c \in 1..r.cams : (r.out[i][c + 2] = 1) = (c \in C!Seen(r.ids, out[i]))>>,
               <<"rest-empty", \A i \in r.ret + 1 .. Len(r.out) : r.out[i][2] = 0>> })
Fails(r) == IF r.kind = "freq" THEN FailsFreq(r) ELSE FailsSearch(r)

TraceInit == InitRegs /\ l = 1
TraceNext == l <= Len(Trace) /\ Judge(l, Fails(Trace[l])) /\ Consumed(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
