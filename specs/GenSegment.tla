----------------------------- MODULE GenSegment -----------------------------
(* Every image with the given grey values on the inner pixels. *)
EXTENDS Segment, TLC, Json
Emit == pos = 0 => PrintT("GEN " \o ToJson([p \in 1..(Q.w * Q.h) |-> im[p - 1]]))
GenNext == UNCHANGED vars
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
