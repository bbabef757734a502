---------------------------- MODULE TraceParFile ----------------------------
(* Records of reading (and writing back) parameter and calibration files.     *)
EXTENDS TraceLib, ParFormats, Trig
VARIABLE l
M == INSTANCE ParFile WITH MaxCams <- 4, fmt <- "track", size <- 0, fault <- "none", at <- 0, pos <- 0, rec <- <<>>, phase <- "closed"
\* the record holds every token of the file in the field the format names
Holds(f, toks, rec) == \A i \in 1..Len(f) : rec[f[i][1]] = toks[i]
Rows(toks, n) == [i \in 1..n |-> <<toks[4 * i - 2], toks[4 * i - 1], toks[4 * i]>>]
Single(r) == LET f == Fmt(r.fmt, r.size) IN
  CASE r.fmt = "calblock" -> LET n == IF r.fault = "none" THEN r.size ELSE IF r.fault = "cut" /\ r.at % 4 = 0 THEN r.at \div 4 ELSE 0 IN
                             { <<"readable", r.ok = (IF n > 0 THEN 1 ELSE 0)>>, <<"points", n > 0 => r.pts = Rows(r.toks, n)>> }
    [] OTHER -> { <<"readable", r.ok = (IF r.fault = "none" THEN 1 ELSE 0)>>,
                  <<"fields", r.ok = 1 => Holds(f, r.toks, r.rec)>>,
                  <<"rest", r.ok = 1 => (r.fmt = "track" => \A k \in {"dsumg", "dn", "dnx", "dny"} : r.rec[k] = "0") /\ (r.fmt = "control" => r.rec.nlay = "1")>> }
\* manual orientation: row `cam` of four point numbers, points from the calibration block
InBlock(r) == \A i \in 1..4 : r.nrs[i] \in 1..r.npts
ManReadable(r) == /\ r.fault \notin {"missing"} /\ (r.fault = "cut" => r.at >= 4 * (r.cam + 1)) /\ (r.fault = "garbled" => r.at > 4 * (r.cam + 1))
                  /\ r.block = "ok" /\ r.npts >= 4
Man(r) == { <<"count", (r.ret = 4) = (ManReadable(r) /\ InBlock(r))>>, <<"failure-is-zero", ~ManReadable(r) => r.ret = 0>>,
            <<"points", r.ret = 4 => \A i \in 1..4 : r.fix[i] = r.pts[r.nrs[i]]>> }
\* orientation file, distortion file or its fallback
AddSource(r) == IF r.add.state # "missing" THEN r.add ELSE r.fb
CalReadable(r) == r.fault = "none" /\ AddSource(r).state \in {"missing", "ok"}
CalFields(r) == /\ \A i \in 1..Len(Ori) : (i \in 7..15 /\ r.via # "ori") \/ r.rec[Ori[i][1]] = r.toks[i]
                /\ IF AddSource(r).state = "missing" THEN \A k \in DOMAIN NoDistortion : r.rec[k] = NoDistortion[k] ELSE Holds(Added, AddSource(r).toks, r.rec)
CalFile(r) == { <<"readable", r.ok = (IF CalReadable(r) THEN 1 ELSE 0)>>, <<"fields", r.ok = 1 => CalFields(r)>>,
                <<"rotation", r.ok = 1 /\ r.via # "ori" => RotationOk(r.dm, r.ang[1], r.ang[2], r.ang[3])>> }
\* writing, then reading back
Written(r) == { <<"reported", r.wrote = (IF r.where = "ok" \/ (r.where = "no-add-dir" /\ r.add = 0) THEN 1 ELSE 0)>>,
                <<"back", r.wrote = 1 /\ r.where = "ok" => r.ok = 1 /\ \A i \in 1..Len(Ori) : r.rec[Ori[i][1]] = r.toks[i]>>,
                <<"distortion", r.wrote = 1 /\ r.where = "ok" => IF r.add = 1 THEN Holds(Added, r.atoks, r.rec) ELSE \A k \in DOMAIN NoDistortion : r.rec[k] = NoDistortion[k]>> }
TarWritten(r) == { <<"back", r.where = "ok" => r.ok = 1 /\ Holds(TargetPar, r.toks, r.rec)>>, <<"nothing", r.where # "ok" => r.ok = 0>> }
Fails(r) == Failing((CASE r.op = "read" -> Single(r) [] r.op = "manori" -> Man(r) [] r.op = "cal" -> CalFile(r)
                       [] r.op = "wcal" -> Written(r) [] r.op = "wtar" -> TarWritten(r))
                    \cup { <<"files-untouched", r.same = 1>> })
TraceInit == InitRegs /\ l = 1
TraceNext == l <= Len(Trace) /\ Judge(l, Fails(Trace[l])) /\ Consumed(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
