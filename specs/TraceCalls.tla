----------------------------- MODULE TraceCalls -----------------------------
(* Array calls of the bindings: whatever the memory layout of the arguments   *)
(* and wherever the result goes, the numbers are those of the library called  *)
(* for each element (want), arguments are left alone, and calls that cannot   *)
(* be meant are refused.  Frames show the particles and targets of the files. *)
EXTENDS TraceLib
VARIABLE l
None == -999999
\* the points of an epipolar curve are computed in the binding itself: 1/50000 pixel
Same(r, v) == IF r.fn = "curve" THEN Len(v) = Len(r.want) /\ \A i \in DOMAIN v : Abs(v[i] - r.want[i]) <= 2 ELSE v = r.want
Calls(r) == {<<"result", \A k \in Range(r.runs) : Same(r, k.v)>>, <<"arguments-untouched", \A k \in Range(r.runs) : k.kept = 1>>,
             <<"refused", \A x \in Range(r.refused) : x[1] = x[2]>>}
Frame(r) == {<<"positions", r.got = r.pos>>, <<"unread", r.empty = 1>>, <<"refused", \A x \in Range(r.refused) : x[1] = x[2]>>,
             <<"targets", Len(r.seen) = Len(r.targs) /\ \A k \in DOMAIN r.targs : r.seen[k] =
                 [i \in 1..r.n |-> IF r.corr[i][k] = -1 THEN <<None, None>> ELSE r.targs[k][r.corr[i][k] + 1]]>>}
TraceInit == InitRegs /\ l = 1
TraceNext == l <= Len(Trace) /\ Judge(l, Failing(IF Trace[l].fn = "frame" THEN Frame(Trace[l]) ELSE Calls(Trace[l]))) /\ Consumed(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
