--------------------------- MODULE GenCorrespond ---------------------------
(* Prints every relation over the given cameras and target counts. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS NCams, Counts, Marks
VARIABLE f
C == INSTANCE Correspond WITH Accept <- 0, rel <- <<>>, all <- FALSE, table <- <<>>, stage <- 1, used <- {}
Init == f \in [C!Related -> Marks]
Spec == Init /\ [][FALSE]_f
Emit == PrintT("GEN " \o ToJson(C!RelOf(f)))
=============================================================================
