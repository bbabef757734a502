------------------------------ MODULE TracePix ------------------------------
(* Records of conversions between pixel and metric coordinates.               *)
EXTENDS TraceLib
VARIABLE l
M == INSTANCE PixMetric WITH Sizes <- {}, Pitches <- {}, Coords <- {}, s <- 0, pt <- 0, at <- 0, stage <- 0
All(r, f(_)) == \A i \in 1..Len(r.pts) : f(i)
Fails(r) ==
  IF r.op = "grid" THEN Failing({
      <<"number-of-points", Len(r.fwd) = Len(r.pts) /\ Len(r.met2) = Len(r.mets)>>,
      <<"pixel-to-metric", All(r, LAMBDA i : r.fwd[i] = M!ToMetric(r, r.pts[i]))>>,
      <<"old-pixel-to-metric", r.old = 0 \/ All(r, LAMBDA i : r.ofwd[i] = M!ToMetric(r, r.pts[i]))>>,
      <<"there-and-back", All(r, LAMBDA i : r.back[i] = <<2 * r.pts[i][1], 2 * r.pts[i][2]>>)>>,
      <<"old-there-and-back", r.old = 0 \/ All(r, LAMBDA i : r.oback[i] = <<2 * r.pts[i][1], 2 * r.pts[i][2]>>)>>,
      <<"metric-to-pixel", \A i \in 1..Len(r.mets) : r.met2[i] = M!ToPixel2(r, r.mets[i])>>,
      <<"inputs-untouched", r.same = 1>> })
  ELSE \* "trip": any pitch; errors in millionths of a pixel, of a pixel, and of a thousandth of a mm
    Failing({ <<"there-and-back", \A i \in 1..Len(r.err) : Abs(r.err[i]) <= 2>> })
TraceInit == InitRegs /\ l = 1
TraceNext == l <= Len(Trace) /\ Judge(l, Fails(Trace[l])) /\ Consumed(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
