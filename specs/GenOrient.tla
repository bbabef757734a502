----------------------------- MODULE GenOrient -----------------------------
(* Every combination of adjustable groups and point selections.               *)
EXTENDS OrientFit, TLC, Json, Sequences
Emit == PrintT("GEN " \o ToJson(<<[g \in 1..Groups |-> IF g \in flags THEN 1 ELSE 0], use>>))
GenSpec == Init /\ [][FALSE]_vars
=============================================================================
