------------------------------- MODULE GenLut -------------------------------
(* Histories worth replaying: full depth, ending in a projection, no two      *)
(* changes that cancel each other, no repeated projections.                    *)
EXTENDS LutLife, TLC, Json
Dull(h) == \E i \in 1..Len(h) - 1 : h[i] = h[i + 1] /\ h[i] # "build"
GenNext == Next /\ ~Dull(hist')
GenSpec == Init /\ [][GenNext]_vars
Worth == Len(hist) = Depth /\ hist[Depth] = "probe" /\ \E i \in 1..Depth : hist[i] = "build"
Emit == Worth => PrintT("GEN " \o ToJson(hist))
=============================================================================
