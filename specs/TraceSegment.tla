----------------------------- MODULE TraceSegment -----------------------------
(* Records of targ_rec: image, window, limits and the targets reported. *)
EXTENDS TraceLib
VARIABLE l
S == INSTANCE Segment WITH Q <- 0, Inner <- {}, Greys <- {}, im <- 0, pos <- 0, used <- {}, cur <- {}, done <- <<>>
Near(got, sum, wt) == Abs((got - 500) * wt - 1000 * sum) <= wt
FailsImage(r) ==
  LET q == S!Clip([w |-> r.w, h |-> r.h, thres |-> r.thres, disco |-> r.disco, x0 |-> r.win[1], x1 |-> r.win[2], y0 |-> r.win[3], y1 |-> r.win[4]])
      img == [p \in 0..(r.w * r.h - 1) |-> r.img[p + 1]]
      lim == [nn |-> <<r.lim[1], r.lim[2]>>, nx |-> <<r.lim[3], r.lim[4]>>, ny |-> <<r.lim[5], r.lim[6]>>, sumg |-> r.lim[7]]
      all == S!Spots(q, img, {}, 0)
      facts == [i \in DOMAIN all |-> S!Facts(q, img, all[i])]
      want == SelectSeq(facts, LAMBDA f : S!Accepts(lim, f))
      got == r.got
  IN IF Len(want) = 0
     THEN Failing({ <<"placeholder", Len(got) = 1 /\ got[1] = [n |-> 1, nx |-> 1, ny |-> 1, sumg |-> 1, x |-> 1000, y |-> 1000, tnr |-> -1, pnr |-> 1]>>,
                    <<"input-unchanged", r.same = 1>> })
     ELSE IF Len(got) # Len(want) THEN {"number-of-targets"}
     ELSE Failing({
       <<"pixel-count", \A i \in DOMAIN want : got[i].n = want[i].n>>,
       <<"extent", \A i \in DOMAIN want : got[i].nx = want[i].nx /\ got[i].ny = want[i].ny>>,
       <<"grey-sum", \A i \in DOMAIN want : got[i].sumg = want[i].sumg>>,
       <<"centre", \A i \in DOMAIN want : Near(got[i].x, want[i].xs, want[i].wt) /\ Near(got[i].y, want[i].ys, want[i].wt)>>,
       <<"numbering", \A i \in DOMAIN want : got[i].pnr = i - 1 /\ got[i].tnr = -1>>,
       <<"input-unchanged", r.same = 1>> })
\* one wide spot whose shape is known by construction
FailsWide(r) == Failing({ <<"one-target", Len(r.got) = 1>>,
                          <<"all-of-it", Len(r.got) = 1 => r.got[1].n = r.want[1] /\ r.got[1].sumg = r.want[2] /\ r.got[1].nx = r.want[3] /\ r.got[1].ny = r.want[4]>> })
\* very many spots: one pixel at every second place of every second row
FailsDots(r) ==
  LET nx == (r.w - 2) \div 2
      n == nx * ((r.h - 2) \div 2)
      want(k) == <<1, 1, 1, r.grey, 1000 * (2 + 2 * (k % nx)) + 500, 1000 * (2 + 2 * (k \div nx)) + 500, -1, k>>
  IN Failing({ <<"number-of-targets", Len(r.got) = n>>, <<"targets", Len(r.got) = n => \A k \in 1..n : r.got[k] = want(k - 1)>> })
Fails(r) == CASE r.kind = "image" -> FailsImage(r) [] r.kind = "dots" -> FailsDots(r) [] r.kind = "wide" -> FailsWide(r)
TraceInit == InitRegs /\ l = 1
TraceNext == l <= Len(Trace) /\ Judge(l, Fails(Trace[l])) /\ Consumed(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
