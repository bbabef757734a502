----------------------------- MODULE OrientFit -----------------------------
(* Fitting a camera to matched points, as a protocol: what may change, and when.  Parameters are    *)
(* "ext" (position and angles, always adjustable) and the adjustable groups 1..Groups, of which only *)
(* the flagged ones may move.  A run iterates on a working copy; only a converged one is handed      *)
(* back.  Points outside Used never enter.                                                           *)
EXTENDS Integers, FiniteSets
CONSTANTS Groups, MaxIter, UseModes
VARIABLES flags, use, cam, work, it, verdict
vars == <<flags, use, cam, work, it, verdict>>
Params == 0..Groups          \* 0 is "ext"
Start == [p \in Params |-> 0]
\* point i (from 0) takes part: it is matched to itself, and the mode does not leave it out
Takes(mode, i, pnr) == pnr = i /\ CASE mode = 1 -> (i % 2) # 0 [] mode = 2 -> (i % 2) = 0 [] mode = 3 -> (i % 3) # 0 [] OTHER -> TRUE
\* observations: two per point and one for each of the ten sensor and distortion parameters; unknowns: those, six of the exterior, two of the glass
Enough(points, glass) == 2 * points + 10 >= IF glass THEN 18 ELSE 16

Init == flags \in SUBSET (1..Groups) /\ use \in UseModes /\ cam = Start /\ work = Start /\ it = 0 /\ verdict = "none"
Iterate == /\ verdict = "none" /\ it < MaxIter
           /\ \E S \in SUBSET (flags \cup {0}) : work' = [p \in Params |-> IF p \in S THEN 1 - work[p] ELSE work[p]]
           /\ it' = it + 1 /\ UNCHANGED <<flags, use, cam, verdict>>
Converge == verdict = "none" /\ it > 0 /\ cam' = work /\ verdict' = "solved" /\ UNCHANGED <<flags, use, work, it>>
GiveUp == verdict = "none" /\ verdict' = "failed" /\ UNCHANGED <<flags, use, cam, work, it>>
Next == Iterate \/ Converge \/ GiveUp
Spec == Init /\ [][Next]_vars
OnlyAsked == \A p \in 1..Groups : p \notin flags => cam[p] = 0
NothingOnFailure == verdict # "solved" => cam = Start
=============================================================================
