------------------------------ MODULE LutLife ------------------------------
(* Life of a camera's refraction table: it is made for the camera, media and  *)
(* volume of the moment; parameters may change later; it may be made again;   *)
(* points are projected at any time. A table is fresh if it was made after    *)
(* the last change of camera or media. Projections with no table or a fresh   *)
(* one must be those of the direct computation; with a stale one the caller   *)
(* gets what he asked for.                                                    *)
EXTENDS Naturals, Sequences
Acts == {"build", "camera", "media", "volume", "probe"}
NoTable == <<>>
Now(st) == <<st.cam, st.med>>
Step(st, a) == CASE a = "build" -> [st EXCEPT !.table = <<Now(st), st.vol>>]
                 [] a = "camera" -> [st EXCEPT !.cam = 1 - st.cam]
                 [] a = "media" -> [st EXCEPT !.med = 1 - st.med]
                 [] a = "volume" -> [st EXCEPT !.vol = 1 - st.vol]
                 [] a = "probe" -> st
Start == [cam |-> 0, med |-> 0, vol |-> 0, table |-> NoTable]
Fresh(st) == st.table # NoTable /\ st.table[1] = Now(st)
\* must projecting now agree with the direct computation?
Bound(st) == st.table = NoTable \/ Fresh(st)

CONSTANT Depth
VARIABLES st, hist
vars == <<st, hist>>
Init == st = Start /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E a \in Acts : st' = Step(st, a) /\ hist' = Append(hist, a)
Spec == Init /\ [][Next]_vars
JustBuilt == (hist # <<>> /\ hist[Len(hist)] = "build") => Fresh(st) /\ Bound(st)
\* a table stays fresh exactly while every change has been taken back
Stale == st.table # NoTable => (Fresh(st) <=> st.table[1] = <<st.cam, st.med>>)
=============================================================================
