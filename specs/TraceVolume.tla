----------------------------- MODULE TraceVolume -----------------------------
(* Volumes found by the real code (10^-4 mm): r.lo, r.hi depth limits given,  *)
(* r.x, r.y limits before, r.pts corner points [camera][corner and depth][xy] *)
(* found one by one, r.got what came out: x, y, z limits, r.more the same      *)
(* from further calls (again on the result; cameras in another order; ...)     *)
EXTENDS TraceLib
VARIABLE l
V == INSTANCE Volume WITH Cams <- {}, Coords <- {}, sees <- 0, start <- 0, box <- 0, todo <- 0
\* straight cameras: rounding only; distorted ones: the code corrects corners in one step
Near(r, a, b) == Abs(a - b) <= (IF r.bent = 0 THEN 2 ELSE 400 + r.size \div 200)
NearAll(r, a, b) == \A i \in 1..2 : Near(r, a[i], b[i])
Vals(r, k) == UNION {{r.pts[c][i][k] : i \in 1..Len(r.pts[c])} : c \in 1..Len(r.pts)}
Fails(r) == Failing({
   <<"depth-range", r.got[3] = V!Depth(r.lo, r.hi)>>,
   <<"x-range", NearAll(r, r.got[1], V!Hull(r.x, Vals(r, 1)))>>,
   <<"y-range", NearAll(r, r.got[2], V!Hull(r.y, Vals(r, 2)))>>,
   <<"depends-on-order-or-repetition", \A i \in 1..Len(r.more) : r.more[i] = r.got>>,
   <<"run-not-set-up-with-it", r.run = r.rungot>>,
   <<"velocity-range", Abs(r.lmax - r.lmaxgot) <= 1>>,
   <<"inputs-untouched", r.same = 1>> })
TraceInit == InitRegs /\ l = 1
TraceNext == l <= Len(Trace) /\ Judge(l, Fails(Trace[l])) /\ Consumed(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
