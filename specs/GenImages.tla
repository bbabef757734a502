------------------------------ MODULE GenImages ------------------------------
(* Every image of a size over a few greys. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS N, Greys
VARIABLE img
Init == img \in [1..N -> Greys]
Next == UNCHANGED img
Spec == Init /\ [][Next]_img
Emit == PrintT("GEN " \o ToJson(img))
=============================================================================
