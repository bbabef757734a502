------------------------------- MODULE TraceTwin -------------------------------
(* Several executions of one job: what each of them answered.                   *)
(* kind "same": executions under different memory contents and histories; runs: *)
(*   records of digests, one per field of the answer; all agree in every field. *)
(* kind "match": one scene matched with the cameras in several orders; runs:    *)
(*   [clear, counts, groups]; groups in the original camera order.  Where the   *)
(*   scene leaves no doubt (clear), the groups and counts agree and everything  *)
(*   seen twice is matched.                                                     *)
EXTENDS TraceLib
VARIABLE l
Same(r) == IF \A k \in DOMAIN r.runs : DOMAIN r.runs[k] = DOMAIN r.runs[1]
           THEN Failing({<<f, \A k \in DOMAIN r.runs : r.runs[k][f] = r.runs[1][f]>> : f \in DOMAIN r.runs[1]})
           ELSE {"fields"}
Match(r) == IF \E k \in DOMAIN r.runs : r.runs[k].clear = 0 THEN {}
            ELSE Failing({<<"groups", \A k \in DOMAIN r.runs : Range(r.runs[k].groups) = Range(r.runs[1].groups)>>,
                          <<"counts", \A k \in DOMAIN r.runs : r.runs[k].counts = r.runs[1].counts>>,
                          <<"once", \A k \in DOMAIN r.runs : Len(r.runs[k].groups) = Cardinality(Range(r.runs[k].groups))>>})
Fails(r) == IF r.kind = "match" THEN Match(r) ELSE Same(r)
TraceInit == InitRegs /\ l = 1
TraceNext == l <= Len(Trace) /\ Judge(l, Fails(Trace[l])) /\ Consumed(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
================================================================================
