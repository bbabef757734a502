------------------------------- MODULE ImageOps -------------------------------
(* Pixel arithmetic of the image preparation, on images of w x h greys        *)
(* (sequences, row by row), and the sliding-window box blur as a process.     *)
EXTENDS Naturals, Integers, Sequences

Max(a, b) == IF a >= b THEN a ELSE b
Min(a, b) == IF a <= b THEN a ELSE b
At(w, img, x, y) == img[y * w + x + 1]
Pixels(w, h) == 1..(w * h)
Xof(w, i) == (i - 1) % w
Yof(w, i) == (i - 1) \div w
RECURSIVE SumSeq(_, _, _)
SumSeq(f(_), a, b) == IF a > b THEN 0 ELSE f(a) + SumSeq(f, a + 1, b)

Subtract(a, b) == [i \in DOMAIN a |-> Max(a[i] - b[i], 0)]
Mask(a, m) == [i \in DOMAIN a |-> IF m[i] = 0 THEN 0 ELSE a[i]]

\* averages over the nine pixels of flat neighbourhoods (rows wrap into each other at the left and right edge)
Processed(w, h, i) == i > w + 1 /\ i < w * h - w
Nine(w, i) == <<i - w - 1, i - w, i - w + 1, i - 1, i, i + 1, i + w - 1, i + w, i + w + 1>>
Weighted(w, img, f, i) == SumSeq(LAMBDA k : f[k] * img[Nine(w, i)[k]], 1, 9)
Trunc(a, b) == IF (a >= 0) = (b > 0) THEN (IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b)
               ELSE -((IF a < 0 THEN -a ELSE a) \div (IF b < 0 THEN -b ELSE b))
FSum(f) == SumSeq(LAMBDA k : f[k], 1, 9)
\* f in quarters; the sum may be cut to a whole grey before or after dividing
Filtered(w, img, f, i) == {Min(255, Max(8, v)) : v \in {Trunc(Weighted(w, img, f, i), FSum(f)),
                                                       Trunc(4 * Trunc(Weighted(w, img, f, i), 4), FSum(f))}}
Mean9(w, img, i) == Weighted(w, img, [k \in 1..9 |-> 1], i) \div 9

\* box blur: the window shrinks symmetrically at the edges
RowSum(w, s, img, x, y) ==
  LET h == Min(s, Min(x, w - 1 - x))
  IN (SumSeq(LAMBDA k : At(w, img, k, y), x - h, x + h) * (2 * s + 1)) \div (2 * h + 1)
BlurAt(w, h, s, img, x, y) ==
  LET v == Min(s, Min(y, h - 1 - y))
      n == 2 * s + 1
  IN ((n * SumSeq(LAMBDA k : RowSum(w, s, img, x, k), y - v, y + v)) \div (n * n)) \div (2 * v + 1)
Blur(w, h, s, img) == [i \in Pixels(w, h) |-> BlurAt(w, h, s, img, Xof(w, i), Yof(w, i))]

\* one field of an interlaced image in the upper half (sel 1: odd lines, 2: even lines), 2 below;
\* for an odd number of lines the pixels between the halves are not specified (0..255)
SplitOk(w, h, sel, img, out) ==
  IF sel = 0 THEN out = img
  ELSE /\ \A i \in Pixels(w, h) : Yof(w, i) < h \div 2 => out[i] = At(w, img, Xof(w, i), 2 * Yof(w, i) + (sel % 2))
       /\ \A i \in Pixels(w, h) : i > (w * h + 1) \div 2 => out[i] = 2
Split(w, h, sel, img) == IF sel = 0 THEN img
  ELSE [i \in Pixels(w, h) |-> IF Yof(w, i) < h \div 2 THEN At(w, img, Xof(w, i), 2 * Yof(w, i) + (sel % 2)) ELSE 2]
\* the prepared image before filtering, and after
HighPass(w, h, s, sel, img) == LET hp == Subtract(img, Blur(w, h, s, img)) IN IF sel \in {1, 2} THEN Split(w, h, sel, hp) ELSE hp
PreparedOk(w, h, s, sel, filt, f, img, out) ==
  LET hp == HighPass(w, h, s, sel, img)
  IN CASE filt = 0 \/ (filt = 2 /\ FSum(f) = 0) -> out = hp
       [] filt = 1 -> \A i \in Pixels(w, h) : Processed(w, h, i) => out[i] = Mean9(w, hp, i)
       [] filt = 2 -> \A i \in Pixels(w, h) : Processed(w, h, i) => out[i] \in Filtered(w, hp, f, i)

\* ---- the sliding-window row pass as a process: one line, an accumulator taking in and dropping greys
CONSTANTS W, Span, Greys
VARIABLES line, x, acc, out
vars == <<line, x, acc, out>>
Init == line \in [1..W -> Greys] /\ x = 0 /\ acc = line[1] /\ out = <<>>
Emit == Append(out, (acc * (2 * Span + 1)) \div (2 * Min(Span, Min(x, W - 1 - x)) + 1))
Slide ==
  /\ x < W
  /\ out' = Emit /\ x' = x + 1
  /\ acc' = IF x + 1 >= W THEN acc
            ELSE LET h == Min(Span, Min(x, W - 1 - x))
                     g == Min(Span, Min(x + 1, W - 2 - x))
                 IN CASE g > h -> acc + line[2 * x + 2] + line[2 * x + 3]                 \* growing at the left edge
                      [] g = h -> acc + line[x + 2 + g] - line[x + 1 - h]                 \* sliding
                      [] g < h -> acc - line[x - h + 1] - line[x - h + 2]                 \* shrinking at the right edge
  /\ UNCHANGED line
Next == Slide
Spec == Init /\ [][Next]_vars
SameAsDefinition == \A k \in DOMAIN out : out[k] = RowSum(W, Span, line, k - 1, 0)
NeverBrighter == \A k \in DOMAIN out : \A m \in Greys : (\A i \in 1..W : line[i] <= m) => out[k] <= m * (2 * Span + 1)
=============================================================================
