------------------------------- MODULE Segment -------------------------------
(* Threshold segmentation of a grey image.                                   *)
(*                                                                           *)
(* An image is a function on pixels 0..W*H-1 (row by row).  The window is     *)
(* scanned row by row; a bright pixel not used yet, at least as bright as its *)
(* eight neighbours (used ones count as dark), starts a spot, which grows     *)
(* through bright four-neighbours that do not rise by more than the           *)
(* discontinuity limit over the pixel they are reached from, and none of      *)
(* whose four neighbours does.  Growth may happen in any order.               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

\* par: [w, h, thres, disco, x0, x1, y0, y1]: window [x0, x1) x [y0, y1), inside the image border
Four(w, p) == {p - 1, p + 1, p - w, p + w}
Eight(w, p) == Four(w, p) \cup {p - w - 1, p - w + 1, p + w - 1, p + w + 1}
X(w, p) == p % w
Y(w, p) == p \div w
Clip(q) == [q EXCEPT !.x0 = IF @ <= 0 THEN 1 ELSE @, !.y0 = IF @ <= 0 THEN 1 ELSE @,
                     !.x1 = IF @ >= q.w THEN q.w - 1 ELSE @, !.y1 = IF @ >= q.h THEN q.h - 1 ELSE @]
InWin(q, p) == X(q.w, p) >= q.x0 /\ X(q.w, p) < q.x1 /\ Y(q.w, p) >= q.y0 /\ Y(q.w, p) < q.y1

Val(img, used, p) == IF p \in used THEN 0 ELSE img[p]
Peak(q, img, used, p) == /\ InWin(q, p) /\ p \notin used /\ img[p] > q.thres
                         /\ \A n \in Eight(q.w, p) : img[p] >= Val(img, used, n)
\* may p be reached from n?
Step(q, img, used, n, p) == /\ InWin(q, p) /\ p \notin used /\ img[p] > q.thres
                            /\ img[p] <= img[n] + q.disco
                            /\ \A m \in Four(q.w, p) : img[n] + q.disco >= img[m]
RECURSIVE Closure(_, _, _, _, _)
Closure(q, img, used, reg, front) ==
  LET new == {p \in UNION {Four(q.w, n) : n \in front} \ reg : \E n \in front \cap Four(q.w, p) : Step(q, img, used, n, p)}
  IN IF new = {} THEN reg ELSE Closure(q, img, used, reg \cup new, new)
Spot(q, img, used, p) == Closure(q, img, used, {p}, {p})

\* all spots, in scan order: sequence of pixel sets
RECURSIVE Spots(_, _, _, _)
Spots(q, img, used, p) ==
  IF p >= q.w * q.h THEN <<>>
  ELSE IF Peak(q, img, used, p)
       THEN LET s == Spot(q, img, used, p) IN <<s>> \o Spots(q, img, used \cup s, p + 1)
       ELSE Spots(q, img, used, p + 1)

RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOf(f, S \ {x})
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x
\* what is reported of a spot; xs, ys: sums of coordinate times (grey - threshold), wt: the weight
Facts(q, img, s) ==
  LET g == [p \in s |-> img[p]]
      xs == {X(q.w, p) : p \in s}
      ys == {Y(q.w, p) : p \in s}
      sg == SumOf(g, s)
  IN [n |-> Cardinality(s), nx |-> MaxOf(xs) - MinOf(xs) + 1, ny |-> MaxOf(ys) - MinOf(ys) + 1, sumg |-> sg,
      xs |-> SumOf([p \in s |-> X(q.w, p) * (img[p] - q.thres)], s), ys |-> SumOf([p \in s |-> Y(q.w, p) * (img[p] - q.thres)], s),
      wt |-> sg - Cardinality(s) * q.thres]
\* lim: [nn, nx, ny |-> <<min, max>>, sumg]
Accepts(lim, f) == /\ f.n >= lim.nn[1] /\ f.n <= lim.nn[2] /\ f.nx >= lim.nx[1] /\ f.nx <= lim.nx[2]
                   /\ f.ny >= lim.ny[1] /\ f.ny <= lim.ny[2] /\ f.sumg > lim.sumg

\* ---- the process, with growth in any order
CONSTANTS Q, Inner, Greys
VARIABLES im, pos, used, cur, done
vars == <<im, pos, used, cur, done>>
Pix == 0..(Q.w * Q.h - 1)
\* the pixels that vary; the rest is a bright border, to see that it never counts
Init == /\ \E f \in [Inner -> Greys] : im = [p \in Pix |-> IF p \in Inner THEN f[p] ELSE 9]
        /\ pos = 0 /\ used = {} /\ cur = {} /\ done = <<>>
QQ == Clip(Q)
Scan == /\ cur = {} /\ pos < Q.w * Q.h
        /\ IF Peak(QQ, im, used, pos) THEN cur' = {pos} /\ used' = used \cup {pos} /\ UNCHANGED <<pos, done>>
           ELSE pos' = pos + 1 /\ UNCHANGED <<cur, used, done>>
        /\ UNCHANGED im
Growable == {p \in Pix : \E n \in cur \cap Four(Q.w, p) : Step(QQ, im, used, n, p)}
Grow == /\ cur # {} /\ \E p \in Growable : cur' = cur \cup {p} /\ used' = used \cup {p}
        /\ UNCHANGED <<im, pos, done>>
Close == /\ cur # {} /\ Growable = {} /\ done' = Append(done, cur) /\ cur' = {} /\ pos' = pos + 1 /\ UNCHANGED <<im, used>>
Next == Scan \/ Grow \/ Close
Spec == Init /\ [][Next]_vars
\* ---- what it guarantees
Disjoint == \A i, j \in DOMAIN done : i # j => done[i] \cap done[j] = {}
BrightAndInside == \A i \in DOMAIN done : \A p \in done[i] : im[p] > QQ.thres /\ X(Q.w, p) \in 1..(Q.w - 2) /\ Y(Q.w, p) \in 1..(Q.h - 2)
\* connected, and grown from a peak
Connected == \A i \in DOMAIN done : \A S \in SUBSET done[i] :
               (S # {} /\ S # done[i]) => \E p \in S : Four(Q.w, p) \cap (done[i] \ S) # {}
\* every order of growth gives the spots of the scan
Confluent == pos = Q.w * Q.h => done = Spots(QQ, im, {}, 0)
\* the brightest pixel of the window is never lost
BrightestTaken == pos = Q.w * Q.h =>
  \A p \in Pix : (InWin(QQ, p) /\ im[p] > QQ.thres /\ \A o \in Eight(Q.w, p) : im[p] >= im[o]) => p \in used
=============================================================================
