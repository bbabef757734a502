-------------------------- MODULE TraceFrameFiles --------------------------
(* r.cams cameras, r.cap: room in the frame read into; r.ops: what was done  *)
(* and seen (.pad: how much longer than usual the names were).               *)
(*  w: a frame was written under number n; .files are the raw file rows     *)
(*  r: a frame was read; .ret success, .parts, .targs, .clean               *)
(*  c: the driver damaged a file (kind, cam, how = none/cut)                *)
(*  wt/rt: a bare target file was written/read                              *)
EXTENDS TraceLib, FrameFiles
VARIABLES l, k, disk, bad
vars == <<l, k, disk, bad>>
Rec == Trace[l]
Ev == Rec.ops[k]
Nums == -5..100000
\* disk: function from the frame numbers in use to their files
Blank(r) == [n \in {r.ops[i].n : i \in DOMAIN r.ops} |-> Nothing(r.cams)]
TraceInit == InitRegs /\ l = 1 /\ k = 1 /\ bad = <<>> /\ disk = Blank(Trace[1])

Damage(d, e) == LET s == IF e.how = "none" THEN None ELSE Cut IN
    CASE e.kind = "rt" -> [d EXCEPT !.rt = s]
      [] e.kind = "link" -> [d EXCEPT !.link = s]
      [] e.kind = "prio" -> [d EXCEPT !.prio = s]
      [] e.kind = "targ" -> [d EXCEPT !.targ[e.cam] = s]

FileRows(f) == IF IsOk(f) THEN f[2] ELSE <<>>
Written(d, e) ==
    IF ~Named(e.pad, e.n, KindsOf(TRUE, e.prio = 1)) THEN {<<"too long refused", e.ret = 0>>} ELSE
    {<<"wrote ok", e.ret = 1>>, <<"particle file", e.files.rt = FileRows(d.rt)>>, <<"particle count", e.files.nrt = Len(d.rt[2])>>,
     <<"linkage file", e.files.link = FileRows(d.link)>>, <<"linkage count", e.files.nlink = Len(d.link[2])>>,
     <<"priority file", e.prio = 1 => e.files.prio = FileRows(d.prio)>>,
     <<"priority count", e.prio = 1 => e.files.nprio = Len(d.prio[2])>>,
     <<"target files", e.files.targ = [c \in DOMAIN d.targ |-> FileRows(d.targ[c])]>>,
     <<"target counts", e.files.ntarg = [c \in DOMAIN d.targ |-> Len(d.targ[c][2])]>>}
ReadOk(d, e) ==
    LET can == Readable(d, e.links = 1, e.prio = 1, Rec.cap) /\ Named(e.pad, e.n, KindsOf(e.links = 1, e.prio = 1)) IN
    {<<"success", (e.ret = 1) = can>>} \cup
    IF ~can THEN {} ELSE
    {<<"particles", e.parts = ReadParts(d, e.links = 1, e.prio = 1)>>,
     <<"numbering", e.nr = [i \in 1..Len(d.rt[2]) |-> i]>>,
     <<"fresh working data", e.clean = 1>>,
     <<"targets", e.targs = ReadTargs(d)>>}
TargsRead(d, e) ==
    IF IsOk(d.targ[1]) /\ Named(e.pad, e.n, {"targ"})
    THEN {<<"count", e.ret = Len(d.targ[1][2])>>, <<"targets", e.targs = ReadTargs(d)[1]>>}
    ELSE {<<"error reported", e.ret = -1>>}

Step == /\ l <= Len(Trace) /\ k <= Len(Rec.ops) /\ bad = <<>>
        /\ LET e == Ev
               d == disk[e.n]
               d2 == CASE e.op = "w" -> IF Named(e.pad, e.n, KindsOf(TRUE, e.prio = 1)) THEN Stored(e.parts, e.targs, e.prio = 1, d) ELSE d
                       [] e.op = "c" -> Damage(d, e)
                       [] e.op = "wt" -> IF Named(e.pad, e.n, {"targ"}) THEN [d EXCEPT !.targ[1] = Ok(TargFile(e.targs))] ELSE d
                       [] OTHER -> d
               fails == Failing(CASE e.op = "w" -> Written(d2, e)
                                  [] e.op = "r" -> ReadOk(d, e)
                                  [] e.op = "wt" -> {<<"wrote ok", (e.ret = 1) = Named(e.pad, e.n, {"targ"})>>}
                                  [] e.op = "rt" -> TargsRead(d, e)
                                  [] OTHER -> {})
           IN /\ disk' = [disk EXCEPT ![e.n] = d2]
              /\ bad' = IF fails = {} THEN <<>> ELSE <<k, e.op, e.n, fails>>
        /\ (bad' # <<>> => Reject(l, bad'))
        /\ k' = k + 1 /\ l' = l
Advance == /\ l <= Len(Trace) /\ (bad # <<>> \/ k > Len(Rec.ops))
           /\ Consumed(l)
           /\ l' = l + 1 /\ k' = 1 /\ bad' = <<>>
           /\ disk' = IF l < Len(Trace) THEN Blank(Trace[l + 1]) ELSE disk
TraceSpec == TraceInit /\ [][Step \/ Advance]_vars
TraceAccepted == Accepted
=============================================================================
