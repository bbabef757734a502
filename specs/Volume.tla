------------------------------- MODULE Volume -------------------------------
(* The observed volume: a box that starts from the limits given and grows by  *)
(* the points where the cameras' corner rays meet the lowest and the highest  *)
(* depth.  However the cameras are taken up, the box ends as the smallest one *)
(* that holds the starting limits and every such point.                       *)
EXTENDS Integers, Sequences, FiniteSets
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

\* depth limits stand at the two ends of the volume, lo and hi with two entries each
Depth(lo, hi) == <<Min({lo[1], lo[2]}), Max({hi[1], hi[2]})>>
\* hull of a starting interval and the values found
Hull(start, vals) == <<Min({start[1]} \cup vals), Max({start[2]} \cup vals)>>

CONSTANTS Cams, Coords           \* cameras; coordinates the corner points may take
VARIABLES sees, start, box, todo
vars == <<sees, start, box, todo>>
\* one coordinate stands for x and y alike; two corner points per camera are enough to move both sides
Init == /\ sees \in [Cams -> {s \in SUBSET Coords : Cardinality(s) \in 1..2}]
        /\ \E a, b \in Coords : start = <<a, b>>      \* a > b: nothing known beforehand
        /\ box = start /\ todo = Cams
Look(c) == /\ c \in todo
           /\ box' = Hull(box, sees[c])
           /\ todo' = todo \ {c} /\ UNCHANGED <<sees, start>>
\* computing it again, from the box already found
Again == todo = {} /\ todo' = Cams /\ UNCHANGED <<sees, start, box>>
Next == Again \/ \E c \in Cams : Look(c)
Spec == Init /\ [][Next]_vars
Seen == UNION {sees[c] : c \in Cams}
HoldsTheSeen == \A c \in Cams \ todo : \A v \in sees[c] : box[1] <= v /\ v <= box[2]
HoldsTheStart == box[1] <= start[1] /\ start[2] <= box[2]
Tight == /\ box[1] \in Seen \cup {start[1]} /\ box[2] \in Seen \cup {start[2]}
WhateverTheOrder == todo = {} => box = Hull(start, Seen)
=============================================================================
