------------------------------ MODULE GenFreq ------------------------------
(* Every candidate table of Cams cameras that propose up to Slots different  *)
(* particles out of IdSet each.                                              *)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS Cams, Slots, IdSet
VARIABLE tab
Props == {s \in UNION {[1..n -> IdSet] : n \in 0..Slots} : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}
Pad(s) == [i \in 1..4 |-> IF i <= Len(s) THEN s[i] ELSE -1]
Init == tab \in [1..Cams -> {Pad(s) : s \in Props}]
Spec == Init /\ [][FALSE]_tab
Emit == PrintT("GEN " \o ToJson(tab))
=============================================================================
