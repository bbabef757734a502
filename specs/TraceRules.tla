----------------------------- MODULE TraceRules -----------------------------
(* The rules a single step is judged by, on their own: the open velocity       *)
(* bounds, where Track's scenes never stand exactly on a bound, and change of  *)
(* velocity and direction. Lengths in half mm, bounds in 1/100 mm.             *)
EXTENDS TraceLib
VARIABLE l
K == INSTANCE Track
Acc(r) == K!Acc(r.a, r.b, r.c)
Ang(r) == K!Ang(r.a, r.b, r.c)
Fails(r) == Failing({
   <<"velocity-bounds", (r.within = 1) <=> K!InBounds(r, r.v)>>,
   <<"acceleration", Abs(r.acc - Acc(r)) <= (IF K!Sq(K!Sub(r.b, r.c)) <= 8000 THEN 3 ELSE 12)>>,
   <<"angle", Ang(r) # -1 => Abs(r.ang - Ang(r)) <= 20>>,
   <<"inputs-changed", r.same = 1>> })
TraceInit == InitRegs /\ l = 1
TraceNext == l <= Len(Trace) /\ Judge(l, Fails(Trace[l])) /\ Consumed(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
