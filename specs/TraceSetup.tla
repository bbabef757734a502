----------------------------- MODULE TraceSetup -----------------------------
(* Runs set up from files of which `keep` values were left (-1: no file).     *)
(* Values are counted in eighths. `tok` is what the files say, `got` what is  *)
(* in the run, in the same order; `vol` is the volume seen from the limits    *)
(* the file gives, found apart from the run, and `volgot` the run's.          *)
EXTENDS TraceLib
VARIABLE l
S == INSTANCE Setup WITH file <- 0, read <- 0, held <- 0, out <- 0
\* values in a file for so many cameras
Need(f, n) == CASE f = "control" -> 13 + 2 * n [] f = "track" -> 9 [] f = "volume" -> 12 [] f = "sequence" -> n + 2
State(r, f) == IF r.keep[f] < 0 THEN "missing" ELSE IF r.keep[f] < Need(f, r.cams) THEN "cut" ELSE "good"
Runs(r) == S!Runs([f \in S!Files |-> State(r, f)])
T(r) == r.tok["track"]
Sq(x) == x * x
Diagonal(r) == Sq(T(r)[2] - T(r)[1]) + Sq(T(r)[4] - T(r)[3]) + Sq(T(r)[6] - T(r)[5])
\* in the volume file's order: the limits a run replaces by what is seen
Seen == {1, 2, 4, 6}
Always(r) == {
   <<"made-or-not", (r.made = 1) <=> Runs(r)>>,
   <<"memory-kept", r.kept = 0>>,
   <<"file-left-open", r.open = 0>>,
   <<"calibration-changed", r.cal = 1>>,
   <<"files-changed", r.files = 1>> }
Made(r) == {
   <<"control", r.got["control"] = r.tok["control"]>>,
   <<"control-names", r.cnames = 1>>,
   <<"track", r.got["track"] = T(r)>>,
   <<"track-rest", r.rest = <<0, 0, 0, 0>> >>,
   <<"volume", \A k \in 1..12 \ Seen : r.got["volume"][k] = r.tok["volume"][k]>>,
   <<"sequence", r.got["sequence"] = r.tok["sequence"]>>,
   <<"sequence-names", r.snames = 1>>,
   <<"sequence-cameras", r.scams = r.cams>>,
   <<"longest-step", Abs(r.diag - Diagonal(r)) <= 1>>,
   <<"observed-volume", r.volgot = r.vol>>,
   <<"counters", r.count = <<0, 0>> >>,
   <<"window", r.window = <<4, r.cams, 20000, 10000, 1>> >>,
   <<"result-files", r.wrote = r.want>> }
Fails(r) == Failing(Always(r)) \cup (IF r.made = 1 /\ Runs(r) THEN Failing(Made(r)) ELSE {})
TraceInit == InitRegs /\ l = 1
TraceNext == l <= Len(Trace) /\ Judge(l, Fails(Trace[l])) /\ Consumed(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
