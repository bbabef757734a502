---------------------------- MODULE TraceRecordEq ----------------------------
(* Records of comparing two records: what differs and the verdicts from both  *)
(* sides (Python adds the verdicts of the != operator, and against None).     *)
EXTENDS TraceLib, RecordTypes
VARIABLE l
Equal(r) == Len(r.diff) = 0
Fails(r) == Failing({ <<"type", r.type \in DOMAIN Types /\ Range(r.diff) \subseteq Range(Types[r.type])>>,
                      <<"first-to-second", (r.ab # 0) = Equal(r)>>, <<"second-to-first", (r.ba # 0) = Equal(r)>>,
                      <<"itself", r.aa # 0 /\ r.bb # 0>>, <<"records-untouched", r.same = 1>>,
                      <<"not-equal-operator", r.py = 1 => (r.ne_ab # 0) = ~Equal(r) /\ (r.ne_ba # 0) = ~Equal(r)>>,
                      <<"none", r.py = 1 => r.none = 0>> })
TraceInit == InitRegs /\ l = 1
TraceNext == l <= Len(Trace) /\ Judge(l, Fails(Trace[l])) /\ Consumed(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
