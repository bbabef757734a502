---------------------------- MODULE TraceSorting ---------------------------
(* Records: [kind, keys, out]; the harness gave the i-th item of the input  *)
(* the payload Payload(kind, i); "py" records come from TargetArray.sort_y. *)
EXTENDS TraceLib
VARIABLE l
S == INSTANCE Sorting WITH MaxLen <- 0, Keys <- {}, in <- <<>>, a <- <<>>, stack <- <<>>, pc <- "", i <- 0, j <- 0, piv <- 0

Item(r, i) ==
  CASE r.kind = "con" -> <<r.keys[i], i, 2 * (i - 1), -(i - 1), i + 6>>
    [] r.kind = "y" -> <<r.keys[i], i, 2 * (i - 1), -(i - 1), i + 6, i + 7, i + 8, i + 9>>
    [] r.kind = "x" -> <<r.keys[i], i, 2 * (i - 1)>>
    [] r.kind = "f" -> <<r.keys[i], i>>
    [] r.kind = "py" -> <<r.keys[i], 2 * (i - 1), -(i - 1), i + 6, i + 7, i + 8, i + 9>>
In(r) == [i \in 1..Len(r.keys) |-> Item(r, i)]
Out(r) == IF r.kind = "py" THEN [i \in 1..Len(r.out) |-> Tail(r.out[i])] ELSE r.out
Fails(r) == Failing({
  <<"same-length", Len(r.out) = Len(r.keys)>>,
  <<"items-intact", Range(Out(r)) = Range(In(r))>>,       \* items are pairwise different, so with equal length: a permutation
  <<"ordered", IF r.kind = "con" THEN S!Descending(Out(r)) ELSE S!Ascending(Out(r))>>,
  <<"renumbered", r.kind = "py" => \A i \in 1..Len(r.out) : r.out[i][1] = i - 1>> })

TraceInit == InitRegs /\ l = 1
TraceNext == l <= Len(Trace) /\ Judge(l, Fails(Trace[l])) /\ Consumed(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
