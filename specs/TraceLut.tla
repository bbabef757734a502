------------------------------ MODULE TraceLut ------------------------------
(* Recorded lives of refraction tables. Probes carry the distance from the    *)
(* camera's axis to the glass (in thousandths of mm) and the differences to   *)
(* the direct computation of flat and distorted image points (10^-7 mm).      *)
EXTENDS TraceLib
VARIABLE l
L == INSTANCE LutLife WITH Depth <- 0, st <- 0, hist <- 0
RECURSIVE After(_, _)
After(acts, n) == IF n = 0 THEN L!Start ELSE L!Step(After(acts, n - 1), acts[n])
Off(p, lim) == \E k \in 2..5 : Abs(p[k]) > lim
Tol == 2500
Cell == 2000
AxisTol == 150000   \* what averaging the axis' default with the next table entry can amount to
Acts(r, a) == {i \in 1..Len(r.acts) : r.acts[i] = a}
Fails(r) == Failing({
   <<"table-depends-on-earlier-one", \A i \in Acts(r, "build") : r.out[i][1] = 1>>,
   <<"calibration-changed", \A i \in Acts(r, "build") : r.out[i][2] = 1>>,
   <<"parameters-changed", \A i \in Acts(r, "build") : r.out[i][3] = 1>>,
   <<"projection-differs", \A i \in Acts(r, "probe") : L!Bound(After(r.acts, i)) =>
        \A k \in 1..Len(r.out[i]) : ~Off(r.out[i][k], IF r.out[i][k][1] < Cell THEN AxisTol ELSE Tol)>>,
   <<"axis-cell", \A i \in Acts(r, "probe") : L!Bound(After(r.acts, i)) =>
        \A k \in 1..Len(r.out[i]) : r.out[i][k][1] < Cell => ~Off(r.out[i][k], Tol)>> })
TraceInit == InitRegs /\ l = 1
TraceNext == l <= Len(Trace) /\ Judge(l, Fails(Trace[l])) /\ Consumed(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
