----------------------------- MODULE GenLinAlg -----------------------------
(* Every shape and padding up to Top. *)
EXTENDS LinAlg, TLC, Json
Emit == PrintT("GEN " \o ToJson(dim))
GenNext == UNCHANGED vars
GenSpec == Init /\ [][GenNext]_vars
=============================================================================
