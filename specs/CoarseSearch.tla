---------------------------- MODULE CoarseSearch ----------------------------
(* The coarse search for a start position in a list sorted by key: halving   *)
(* steps that stop early, then a step back.  `t` is the number of entries    *)
(* before the window.  No entry of the window may lie before the start.      *)
EXTENDS Naturals, Integers
CONSTANTS Sizes, Slack, StepBack
VARIABLES n, t, j0, dj, pc
vars == <<n, t, j0, dj, pc>>
Init == /\ n \in Sizes /\ t \in {0, 1, 2, n \div 3, n \div 2, n - 1, n} /\ t >= 0
        /\ j0 = n \div 2 /\ dj = n \div 4 /\ pc = "halve"
Halve == /\ pc = "halve" /\ dj > 1
         /\ j0' = IF j0 < t THEN j0 + dj ELSE j0 - dj
         /\ dj' = dj \div 2 /\ UNCHANGED <<n, t, pc>>
Back == /\ pc = "halve" /\ dj <= 1
        /\ j0' = IF j0 - Slack < 0 THEN 0 ELSE j0 - Slack
        /\ pc' = "walk" /\ UNCHANGED <<n, t, dj>>
\* while the entry just before the start still belongs to the window, start earlier
Walk == /\ pc = "walk" /\ StepBack /\ j0 > 0 /\ j0 - 1 >= t
        /\ j0' = j0 - 1 /\ UNCHANGED <<n, t, dj, pc>>
Stop == /\ pc = "walk" /\ ~(StepBack /\ j0 > 0 /\ j0 - 1 >= t)
        /\ pc' = "scan" /\ UNCHANGED <<n, t, j0, dj>>
Next == Halve \/ Back \/ Walk \/ Stop
Spec == Init /\ [][Next]_vars
NothingSkipped == pc = "scan" => j0 <= t \/ t >= n
ReadsInside == pc = "halve" /\ dj > 1 => j0 \in 0..n-1
=============================================================================
