------------------------------ MODULE Distort ------------------------------
(* Lens distortion and affine sensor distortion of a flat image point, in     *)
(* whole numbers: positions in mm, displacements in 10^-8 mm; parameters      *)
(* k1 in 10^-6, k2 in 10^-8, k3 in 10^-10, p1, p2 in 10^-6, scx - 1 and she   *)
(* in 10^-3. Division loses less than one unit per term.                      *)
EXTENDS Integers
R2(x, y) == x * x + y * y
\* the Brown terms: displacement of (x, y) along x; along y it is the same with the axes and p1, p2 exchanged
Radial(d, x, y) == LET r2 == R2(x, y) IN d.k1 * r2 * 100 + d.k2 * r2 * r2 + ((d.k3 * r2 * r2 * r2) \div 100)
Brown(d, x, y, p, o) == x * Radial(d, x, y) + p * (R2(x, y) + 2 * x * x) * 100 + o * 2 * x * y * 100
BrownX(d, x, y) == Brown(d, x, y, d.p1, d.p2)
BrownY(d, x, y) == Brown(d, y, x, d.p2, d.p1)
\* sine and cosine of she applied to a length of w mm plus f units: (value - 0) and (value - length), in units
SinOf(h, w, f) == w * h * 100000 + ((f \div 1000) * h) - ((w * h * h * h) \div 60)
CosLess(h, w, f) == -50 * w * h * h - ((f \div 1000) * h * h) \div 2000
ShiftX(d, x, y) == LET bx == BrownX(d, x, y) by == BrownY(d, x, y) IN
  bx + d.scx * x * 100000 + (bx \div 1000) * d.scx - SinOf(d.she, y, by)
ShiftY(d, x, y) == LET by == BrownY(d, x, y) IN by + CosLess(d.she, y, by)
Neutral == [k1 |-> 0, k2 |-> 0, k3 |-> 0, p1 |-> 0, p2 |-> 0, scx |-> 0, she |-> 0]

CONSTANTS Params, Spots
VARIABLES d, at
vars == <<d, at>>
Init == d \in Params /\ at \in Spots
Spec == Init /\ [][FALSE]_vars
x == at[1]
y == at[2]
\* the point symmetric about the centre is moved symmetrically by the radial part, and neutral parameters move nothing
Nothing == d = Neutral => ShiftX(d, x, y) = 0 /\ ShiftY(d, x, y) = 0
Centre == at = <<0, 0>> => ShiftX(d, x, y) = 0 /\ ShiftY(d, x, y) = 0
RadialOnly == (d.p1 = 0 /\ d.p2 = 0 /\ d.scx = 0 /\ d.she = 0) => ShiftX(d, x, y) * y = ShiftY(d, x, y) * x
Turned == LET e == [d EXCEPT !.p1 = d.p2, !.p2 = d.p1] IN (d.scx = 0 /\ d.she = 0) => ShiftX(d, x, y) = ShiftY(e, y, x)
=============================================================================
