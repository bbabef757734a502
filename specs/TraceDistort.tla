---------------------------- MODULE TraceDistort ----------------------------
(* Records of distorting and correcting image points. Displacements are in    *)
(* 10^-8 mm.                                                                   *)
EXTENDS TraceLib
VARIABLE l
D == INSTANCE Distort WITH Params <- {}, Spots <- {}, d <- 0, at <- 0
Close(a, b, t) == Abs(a - b) <= t
\* "grid": whole-millimetre points relative to the distortion centre
Forward(r) == \A i \in 1..Len(r.pts) : LET x == r.pts[i][1] y == r.pts[i][2] IN
  Close(r.shift[i][1], D!ShiftX(r.d, x, y), 60 + Abs(r.d.she) * 3 + Abs(r.d.scx)) /\ Close(r.shift[i][2], D!ShiftY(r.d, x, y), 60 + Abs(r.d.she))
Small(s, t) == \A i \in 1..Len(s) : Abs(s[i][1]) <= t /\ Abs(s[i][2]) <= t
Fails(r) ==
  Failing({
   <<"distorted-point", r.op # "grid" \/ (Len(r.shift) = Len(r.pts) /\ Forward(r))>>,
   \* flat -> distorted -> flat, and the other way round
   <<"flat-there-and-back", Small(r.back, r.tol)>>,
   <<"distorted-there-and-back", Small(r.forth, r.tol)>>,
   <<"neutral-is-identity", r.neutral = 0 \/ Small(r.same, 0)>>,
   \* the single correction step removes most of the displacement (which is at most r.size)
   <<"one-step-correction", \A i \in 1..Len(r.rough) : Abs(r.rough[i][1]) <= r.roughtol /\ Abs(r.rough[i][2]) <= r.roughtol>>,
   <<"rest-untouched", r.kept = 1>> })
TraceInit == InitRegs /\ l = 1
TraceNext == l <= Len(Trace) /\ Judge(l, Fails(Trace[l])) /\ Consumed(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
