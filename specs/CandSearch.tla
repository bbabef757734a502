----------------------------- MODULE CandSearch -----------------------------
(* The image-space candidate search of tracking: what it must return, and   *)
(* the two algorithms that compute it - a coarse binary search for a start   *)
(* position in the row-sorted target list, and a scan that keeps the four    *)
(* best seen so far.                                                         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

\* ---- reference: targets are T(i) = <<x, y, tnr>>, i in 1..n, sorted by y
Clip(lo, hi, v) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
CentreIn(imx, imy, c) == 0 <= c[1] /\ c[1] <= imx /\ 0 <= c[2] /\ c[2] <= imy
Lo(v) == IF v < 0 THEN 0 ELSE v
Hi(v, m) == IF v > m THEN m ELSE v
\* win = <<left, right, up, down>> distances from the centre
InWindow(t, imx, imy, c, win) ==
  /\ t[1] > Lo(c[1] - win[1]) /\ t[1] < Hi(c[1] + win[2], imx)
  /\ t[2] > Lo(c[2] - win[3]) /\ t[2] < Hi(c[2] + win[4], imy)
Dist2(t, c) == (t[1] - c[1]) * (t[1] - c[1]) + (t[2] - c[2]) * (t[2] - c[2])

\* res: sequence of indices; S: the eligible indices; D: their squared distances
NearestFirst(res, S, D(_), most) ==
  /\ Len(res) = (IF Cardinality(S) < most THEN Cardinality(S) ELSE most)
  /\ \A i \in 1..Len(res) : res[i] \in S
  /\ \A i, j \in 1..Len(res) : i < j => res[i] # res[j] /\ D(res[i]) <= D(res[j])
  /\ Len(res) > 0 => \A s \in S \ {res[i] : i \in 1..Len(res)} : D(res[Len(res)]) <= D(s)

\* ---- candidate ranking.  tab[c] = sequence of ids (or -1) camera c proposes
Seen(tab, id) == {c \in DOMAIN tab : \E s \in DOMAIN tab[c] : tab[c][s] = id}
Ids(tab) == {tab[c][s] : c \in DOMAIN tab, s \in 1..4} \ {-1}
Freq(tab, id) == Cardinality(Seen(tab, id))
Often(tab) == {id \in Ids(tab) : Freq(tab, id) >= 2}
\* out = sequence of ids, best first
Ranked(tab, out) ==
  /\ \A i, j \in 1..Len(out) : i < j => out[i] # out[j] /\ Freq(tab, out[i]) >= Freq(tab, out[j])
  /\ IF Often(tab) # {} THEN {out[i] : i \in 1..Len(out)} = Often(tab)
     ELSE IF Ids(tab) = {} THEN out = <<>>
     ELSE Len(out) = 1 /\ out[1] \in Ids(tab)

\* ---- algorithm: keep the four best while scanning the window's targets in list order
CONSTANTS MaxSeen, Dists
VARIABLES d, k, best
vars == <<d, k, best>>
Init == /\ \E n \in 0..MaxSeen : d \in [1..n -> Dists]
        /\ k = 1 /\ best = <<>>
\* position at which item i is inserted: behind everything not farther
Pos(i) == 1 + Cardinality({m \in 1..Len(best) : d[best[m]] <= d[i]})
Insert(s, p, e) == SubSeq(s, 1, p - 1) \o <<e>> \o SubSeq(s, p, Len(s))
Trim(s) == IF Len(s) > 4 THEN SubSeq(s, 1, 4) ELSE s
Scan == /\ k <= Len(d)
        /\ best' = Trim(Insert(best, Pos(k), k))
        /\ k' = k + 1 /\ UNCHANGED d
Next == Scan
Spec == Init /\ [][Next]_vars
KeepsNearest == NearestFirst(best, 1..(k - 1), LAMBDA i : d[i], 4)
=============================================================================
