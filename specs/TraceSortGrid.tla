--------------------------- MODULE TraceSortGrid ---------------------------
(* Lengths in 1/64 pixel.                                                   *)
EXTENDS TraceLib
VARIABLE l
S == INSTANCE SortGrid WITH Points <- {}, Spots <- {}, MaxTargets <- 0, MaxPoints <- 0, Eps <- 1, Size <- <<0, 0>>,
                            tg <- <<>>, fix <- <<>>, i <- 1, j <- 1, best <- -999, res <- <<>>
Pos(tg) == [k \in DOMAIN tg |-> <<tg[k][1], tg[k][2]>>]
\* where a known point (quarter millimetres) appears to a camera 64 mm above the origin with focal length 64 mm, 1 mm pixels
Project(r, x) == <<32 * r.im[1] + (16 * x[1] * 256) \div (256 - x[3]), 32 * r.im[2] - (16 * x[2] * 256) \div (256 - x[3])>>
Where(r, k) == IF r.exact = 1 THEN Project(r, r.fix[k]) ELSE r.proj[k]
Im(r) == <<64 * r.im[1], 64 * r.im[2]>>
\* result entries: <<pnr, x, y, n, nx, ny, sumg, tnr>>; the detection an entry is a copy of
From(r, e) == {j \in DOMAIN r.tg : r.tg[j] = Tail(e)}
FailsGrid(r) ==
  Failing({ <<"one-result-per-point", Len(r.out) = Len(r.fix)>>,
            <<"inputs-intact", r.same = 1>>,
            <<"numbered-by-point", \A k \in DOMAIN r.out : r.out[k][1] \in {-999, k - 1}>>,
            <<"nearest", \A k \in DOMAIN r.out \cap DOMAIN r.fix :
                IF r.out[k][1] = -999 THEN S!MatchOk(Pos(r.tg), Where(r, k), 64 * r.eps, r.m, Im(r), -999)
                ELSE \E j \in From(r, r.out[k]) : S!MatchOk(Pos(r.tg), Where(r, k), 64 * r.eps, r.m, Im(r), j)>> })
FailsNear(r) == Failing({ <<"nearest", S!NearestOk(r.tg, r.p, r.eps, 0, IF r.ret = -999 THEN -999 ELSE r.ret + 1)>>,
                          <<"inputs-intact", r.same = 1>> })
Fails(r) == IF r.kind = "near" THEN FailsNear(r) ELSE FailsGrid(r)

TraceInit == InitRegs /\ l = 1
TraceNext == l <= Len(Trace) /\ Judge(l, Fails(Trace[l])) /\ Consumed(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
