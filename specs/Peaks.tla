-------------------------------- MODULE Peaks --------------------------------
(* Peak fitting: spots are grown one from every local maximum (so that two    *)
(* particles that overlap give two spots that touch), and touching spots with *)
(* no real valley between them are put together again.                        *)
(*                                                                            *)
(* Images, windows, pixels, spot facts and limits are those of Segment; here  *)
(* a maximum is one of the image as it is, and the outermost pixels of the    *)
(* image and the last row of the window belong to no spot.                    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
S == INSTANCE Segment WITH Q <- 0, Inner <- {}, Greys <- {}, im <- 0, pos <- 0, used <- {}, cur <- {}, done <- <<>>

Clip(q) == [q EXCEPT !.x0 = IF @ <= 0 THEN 1 ELSE @, !.y0 = IF @ <= 0 THEN 1 ELSE @,
                     !.x1 = IF @ >= q.w THEN q.w - 1 ELSE @, !.y1 = (IF @ > q.h THEN q.h ELSE @) - 1]
Seed(q, img, used, p) == S!Peak(q, img, used, p) /\ \A n \in S!Eight(q.w, p) : img[p] >= img[n]
RECURSIVE Spots(_, _, _, _)
Spots(q, img, used, p) ==
  IF p >= q.w * q.h THEN <<>>
  ELSE IF Seed(q, img, used, p)
       THEN LET s == S!Spot(q, img, used, p) IN <<[seed |-> p, pix |-> s]>> \o Spots(q, img, used \cup s, p + 1)
       ELSE Spots(q, img, used, p + 1)
Touch(w, a, b) == \E p \in a.pix : S!Eight(w, p) \cap b.pix # {}

\* what is reported of a group of spots (a set of pixels)
Facts(w, img, s) ==
  LET xs == {S!X(w, p) : p \in s} ys == {S!Y(w, p) : p \in s} IN
  [n |-> Cardinality(s), x0 |-> S!MinOf(xs), x1 |-> S!MaxOf(xs), y0 |-> S!MinOf(ys), y1 |-> S!MaxOf(ys),
   nx |-> S!MaxOf(xs) - S!MinOf(xs) + 1, ny |-> S!MaxOf(ys) - S!MinOf(ys) + 1,
   sumg |-> S!SumOf([p \in s |-> img[p]], s),
   xs |-> S!SumOf([p \in s |-> S!X(w, p) * img[p]], s), ys |-> S!SumOf([p \in s |-> S!Y(w, p) * img[p]], s)]

(* the valley between spots a and b: steps of one pixel along the line from    *)
(* centre to centre; no step may lie more than the discontinuity limit below   *)
(* either peak.  Lengths in 1/64 pixel; where rounding could change the pixel  *)
(* looked at, the answer is "either".                                          *)
Root(v) == CHOOSE k \in 0..46000 : k * k <= v /\ v < (k + 1) * (k + 1)
Choices(w, x, y) == {(yy \div 64) * w + xx \div 64 : xx \in {x - 3, x + 3}, yy \in {y - 3, y + 3}}
Level(q, img, a, b) ==
  LET fa == Facts(q.w, img, a.pix) fb == Facts(q.w, img, b.pix)
      xa == (64 * fa.xs) \div fa.sumg ya == (64 * fa.ys) \div fa.sumg
      xb == (64 * fb.xs) \div fb.sumg yb == (64 * fb.ys) \div fb.sumg
      s == Root((xb - xa) * (xb - xa) + (yb - ya) * (yb - ya))
      top == S!MaxOf({img[a.seed], img[b.seed]})
      low(p) == img[p] + q.disco < top
      at(l) == Choices(q.w, xa + (64 * l * (xb - xa)) \div s, ya + (64 * l * (yb - ya)) \div s)
      sure == {l \in 1..(s \div 64 + 1) : 64 * l + 4 < s}
      perhaps == {l \in 1..(s \div 64 + 1) : 64 * l - 4 < s}
  IN IF s < 120 THEN "level"
     ELSE IF s < 136 THEN "either"
     ELSE IF \E l \in sure : \A p \in at(l) : low(p) THEN "valley"
     ELSE IF \A l \in perhaps : \A p \in at(l) : ~low(p) THEN "level"
     ELSE "either"
\* looked at from both sides
Joined(q, img, a, b) == LET ab == Level(q, img, a, b) ba == Level(q, img, b, a) IN IF ab = ba THEN ab ELSE "either"

\* ---- the process: grow all spots, then put touching ones together, in any order
CONSTANTS Q, Inner, Greys
VARIABLES im, spots, groups, phase
vars == <<im, spots, groups, phase>>
Pix == 0..(Q.w * Q.h - 1)
Init == /\ \E f \in [Inner -> Greys] : im = [p \in Pix |-> IF p \in Inner THEN f[p] ELSE 0]
        /\ spots = <<>> /\ groups = {} /\ phase = "grow"
Grow == /\ phase = "grow" /\ spots' = Spots(Clip(Q), im, {}, 0)
        /\ groups' = {{i} : i \in DOMAIN spots'} /\ phase' = "join" /\ UNCHANGED im
Join == /\ phase = "join"
        /\ \E g, h \in groups :
             /\ g # h /\ \E i \in g, j \in h : Touch(Q.w, spots[i], spots[j]) /\ Joined(Clip(Q), im, spots[i], spots[j]) # "valley"
             /\ groups' = (groups \ {g, h}) \cup {g \cup h}
        /\ UNCHANGED <<im, spots, phase>>
Next == Grow \/ Join
Spec == Init /\ [][Next]_vars
\* ---- what it guarantees
PixOf(g) == UNION {spots[i].pix : i \in g}
NothingTwice == \A g, h \in groups : g # h => PixOf(g) \cap PixOf(h) = {}
NothingLost == phase = "join" => UNION {PixOf(g) : g \in groups} = UNION {spots[i].pix : i \in DOMAIN spots}
\* every local maximum inside is found
PeaksFound == phase = "join" => \A p \in Pix : Seed(Clip(Q), im, {}, p) => \E i \in DOMAIN spots : p \in spots[i].pix
\* two particles with dark pixels between them are never one target
DarkSeparates == \A g \in groups : \A T \in SUBSET PixOf(g) :
                   (T # {} /\ T # PixOf(g)) => \E p \in T : S!Eight(Q.w, p) \cap (PixOf(g) \ T) # {}
=============================================================================
