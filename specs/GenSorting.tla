----------------------------- MODULE GenSorting ----------------------------
(* Every array of keys the design model starts from. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS MaxLen, Keys
VARIABLE k
Init == \E n \in 0..MaxLen : k \in [1..n -> Keys]
Spec == Init /\ [][FALSE]_k
Emit == PrintT("GEN " \o ToJson(k))
=============================================================================
