----------------------------- MODULE GenTrackRun -----------------------------
(* Every history of operations up to a bound, as a state machine: checks the   *)
(* design of TrackRun and prints the histories for replay.                      *)
EXTENDS TrackRun, TLC, Json
CONSTANTS First, Last, Depth, Clear, OnFiles, Show
VARIABLES st, hist
Init == st = Fresh(First, Last) /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E op \in {"r", "s", "f", "F", "B"} : May(op, st, First, Last, OnFiles) /\ st' = Do(op, st, First, Last, Clear) /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_<<st, hist>>
Dir == IF hist[Len(hist)] = "B" THEN -1 ELSE 1
Windows == hist # <<>> => \A i \in DOMAIN Sees(st.ev) : TrueWindow(Sees(st.ev)[i], Dir, First, Last)
Inside == LoadsInside(st.ev, First, Last)
Whole == hist # <<>> => /\ hist[Len(hist)] = "F" => WholeForward(st.ev, First, Last)
                        /\ hist[Len(hist)] = "B" => WholeBackward(st.ev, First, Last)
\* however it was reached, a finished forward run leaves the same kind of result everywhere
Results == hist # <<>> /\ (hist[Len(hist)] = "F" \/ (hist[Len(hist)] = "f" /\ st.step = Last)) => \A n \in First..Last : st.saved[n] = "fwd"
Counter == st.step \in First..Last
Emit == Show /\ Len(hist) = Depth => PrintT("GEN " \o ToJson(hist))
==============================================================================
