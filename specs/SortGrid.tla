------------------------------ MODULE SortGrid ------------------------------
(* Matching known points to detections.  Every known point, projected into the image, takes the    *)
(* detection nearest to it among those less than eps away in x and in y; a point projecting eps or *)
(* more outside the image, or with no such detection, stays unmatched.  The transition system is   *)
(* the scan: one point at a time, one detection at a time.                                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Points, Spots, MaxTargets, MaxPoints, Eps, Size
NONE == -999
Abs1(v) == IF v < 0 THEN -v ELSE v
\* the query point is known to within m units in x and y (m = 0: exactly)
Lo(d, m) == IF Abs1(d) > m THEN Abs1(d) - m ELSE 0
Hi(d, m) == Abs1(d) + m
MaybeIn(t, p, e, m) == Lo(t[1] - p[1], m) < e /\ Lo(t[2] - p[2], m) < e
SureIn(t, p, e, m) == Hi(t[1] - p[1], m) < e /\ Hi(t[2] - p[2], m) < e
Lo2(t, p, m) == Lo(t[1] - p[1], m) * Lo(t[1] - p[1], m) + Lo(t[2] - p[2], m) * Lo(t[2] - p[2], m)
Hi2(t, p, m) == Hi(t[1] - p[1], m) * Hi(t[1] - p[1], m) + Hi(t[2] - p[2], m) * Hi(t[2] - p[2], m)
\* may (must) a point at p find nothing, may it find detection j?
MayMiss(tg, p, e, m) == \A k \in DOMAIN tg : ~SureIn(tg[k], p, e, m)
MayFind(tg, p, e, m, j) == /\ MaybeIn(tg[j], p, e, m)
                           /\ \A k \in DOMAIN tg : SureIn(tg[k], p, e, m) => Hi2(tg[k], p, m) >= Lo2(tg[j], p, m)
MayBeInside(p, e, m, im) == \A a \in 1..2 : p[a] + m > -e /\ p[a] - m < im[a] + e
MayBeOutside(p, e, m, im) == \E a \in 1..2 : p[a] - m <= -e \/ p[a] + m >= im[a] + e
\* r: detection (1..) or NONE
NearestOk(tg, p, e, m, r) == IF r = NONE THEN MayMiss(tg, p, e, m) ELSE r \in DOMAIN tg /\ MayFind(tg, p, e, m, r)
MatchOk(tg, p, e, m, im, r) ==
  \/ MayBeInside(p, e, m, im) /\ NearestOk(tg, p, e, m, r)
  \/ MayBeOutside(p, e, m, im) /\ r = NONE

\* ---------------------------------------------------------------- the scan
VARIABLES tg, fix, i, j, best, res
vars == <<tg, fix, i, j, best, res>>
Seqs(S, lo, hi) == UNION {[1..n -> S] : n \in lo..hi}
Init == /\ tg \in Seqs(Spots, 0, MaxTargets) /\ fix \in Seqs(Points, 1, MaxPoints)
        /\ i = 1 /\ j = 1 /\ best = NONE /\ res = <<>>
Look == /\ i <= Len(fix) /\ j <= Len(tg)
        /\ best' = IF /\ MaybeIn(tg[j], fix[i], Eps, 0)
                      /\ best = NONE \/ Lo2(tg[j], fix[i], 0) < Lo2(tg[best], fix[i], 0) THEN j ELSE best
        /\ j' = j + 1 /\ UNCHANGED <<tg, fix, i, res>>
Close == /\ i <= Len(fix) /\ j = Len(tg) + 1
         /\ res' = Append(res, IF MayBeInside(fix[i], Eps, 0, Size) THEN best ELSE NONE)
         /\ i' = i + 1 /\ j' = 1 /\ best' = NONE /\ UNCHANGED <<tg, fix>>
Next == Look \/ Close
Spec == Init /\ [][Next]_vars
Matched == \A k \in DOMAIN res : MatchOk(tg, fix[k], Eps, 0, Size, res[k])
\* nothing nearer is left aside, and matching never depends on the other points
Complete == \A k \in DOMAIN res : res[k] = NONE => (MayBeOutside(fix[k], Eps, 0, Size) \/ \A t \in DOMAIN tg : ~MaybeIn(tg[t], fix[k], Eps, 0))
Alone == \A k, n \in DOMAIN res : fix[k] = fix[n] => res[k] = res[n]
=============================================================================
