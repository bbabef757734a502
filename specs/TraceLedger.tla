----------------------------- MODULE TraceLedger -----------------------------
(* Calls of the real code: r.steps, each [op, o (object), ok, ev (what was     *)
(* taken and given back: pairs of kind and number; 1 took a block, 2 gave one  *)
(* back, 3 opened a file, 4 closed one; number 0: not known, or not its turn)].*)
EXTENDS TraceLib
VARIABLE l
L == INSTANCE Ledger WITH Objs <- {}, MaxBlocks <- 0, MaxCalls <- 0, Sloppy <- "none", has <- 0, being <- 0, call <- 0, n <- 0
Ids(ev, k) == {ev[i][2] : i \in {j \in 1..Len(ev) : ev[j][1] = k}}
StepFails(s, mine, i) ==
  LET got == Ids(s.ev, 1) rel == Ids(s.ev, 2) at == <<i, s.what>> IN
  Failing({ <<<<"file-left-open", at>>, Ids(s.ev, 3) \subseteq Ids(s.ev, 4)>>,
            <<<<"closed-what-was-not-open", at>>, Ids(s.ev, 4) \subseteq Ids(s.ev, 3)>>,
            <<<<"gave-back-what-was-not-its-own", at>>, L!OwnOnly(mine, got, rel)>>,
            <<<<"memory-kept", at>>, L!Kept(s.op, s.ok, mine, got, rel)>> })
RECURSIVE Walk(_, _, _)
Walk(r, i, has) ==
  IF i > Len(r.steps) THEN {}
  ELSE LET s == r.steps[i] mine == has[s.o] f == StepFails(s, mine, i) IN
       IF f # {} THEN f ELSE Walk(r, i + 1, [has EXCEPT ![s.o] = L!Left(mine, Ids(s.ev, 1), Ids(s.ev, 2))])
TraceInit == InitRegs /\ l = 1
TraceNext == l <= Len(Trace) /\ Judge(l, Walk(Trace[l], 1, [o \in 0..Trace[l].objs |-> {}])) /\ Consumed(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
