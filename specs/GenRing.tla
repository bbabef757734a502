------------------------------ MODULE GenRing ------------------------------
(* Enumerates the behaviours of FrameRing: every path of the (bounded)      *)
(* state graph is printed once, as the list of operations to replay in the  *)
(* real buffer.                                                             *)
EXTENDS FrameRing, TLC, Json
CONSTANTS Depth, Loses      \* Loses: the files of frame 1 that may be taken away
VARIABLE hist
GInit == Init /\ hist = <<>>
Op(name, a, b) == hist' = Append(hist, <<name, a, b>>)
GNext == /\ Len(hist) < Depth
         /\ \/ Next1 /\ Op("n", 0, 0)
            \/ Prev1 /\ Op("p", 0, 0)
            \/ \E f \in Frames, b \in BOOLEAN : Read(f, b) /\ Op("r", f, IF b THEN 1 ELSE 0)
            \/ \E f \in Frames : Write(f) /\ Op("w", f, 0)
            \/ \E k \in Loses : Lose(1, k) /\ Op("x", 1, k)
            \/ \E i \in {1, N} : Mark(i) /\ Op("m", i, 0)
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == Len(hist) = Depth => PrintT("GEN " \o ToJson(hist))
=============================================================================
