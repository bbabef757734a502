------------------------------ MODULE EpiBand ------------------------------
(* Which points of a sorted list are acceptable partners along an epipolar  *)
(* segment.  Points are <<x, y, n, nx, ny, sumg>> with x, y in half units,  *)
(* the segment in whole units, the tolerance in eighths, limits in 16ths.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Lesser(a, b) == IF a < b THEN a ELSE b
Greater(a, b) == IF a < b THEN b ELSE a
AbsV(v) == IF v < 0 THEN -v ELSE v

\* all positions below are in eighths of a unit
X8(p) == p[1] * 4
Y8(p) == p[2] * 4
S8(r, i) == r.seg[i] * 8
\* the sensor, centred, shifted by the principal point (pitch in eighths of mm, so im * pitch / 2 in half-eighths)
OnSensor(r) ==
  /\ 2 * Greater(S8(r, 1), S8(r, 3)) > -(r.im[1] * r.pitch[1]) - 16 * r.h[1]
  /\ 2 * Lesser(S8(r, 1), S8(r, 3)) < r.im[1] * r.pitch[1] - 16 * r.h[1]
  /\ 2 * Greater(S8(r, 2), S8(r, 4)) > -(r.im[2] * r.pitch[2]) - 16 * r.h[2]
  /\ 2 * Lesser(S8(r, 2), S8(r, 4)) < r.im[2] * r.pitch[2] - 16 * r.h[2]

\* touching the sensor's edge exactly: either answer
Touching(r) ==
  \/ 2 * Greater(S8(r, 1), S8(r, 3)) = -(r.im[1] * r.pitch[1]) - 16 * r.h[1]
  \/ 2 * Lesser(S8(r, 1), S8(r, 3)) = r.im[1] * r.pitch[1] - 16 * r.h[1]
  \/ 2 * Greater(S8(r, 2), S8(r, 4)) = -(r.im[2] * r.pitch[2]) - 16 * r.h[2]
  \/ 2 * Lesser(S8(r, 2), S8(r, 4)) = r.im[2] * r.pitch[2] - 16 * r.h[2]

InBox(r, p) == /\ X8(p) > Lesser(S8(r, 1), S8(r, 3)) - r.tol /\ X8(p) < Greater(S8(r, 1), S8(r, 3)) + r.tol
               /\ Y8(p) > Lesser(S8(r, 2), S8(r, 4)) - r.tol /\ Y8(p) < Greater(S8(r, 2), S8(r, 4)) + r.tol
DX(r) == r.seg[3] - r.seg[1]
DY(r) == r.seg[4] - r.seg[2]
\* a degenerate segment counts as horizontal
QX(r) == IF DX(r) = 0 /\ DY(r) = 0 THEN 1 ELSE DX(r)
Cross(r, p) == AbsV(DY(r) * (X8(p) - S8(r, 1)) - QX(r) * (Y8(p) - S8(r, 2)))     \* 8 * distance * length
Len2(r) == QX(r) * QX(r) + DY(r) * DY(r)
Hyp(r) == CHOOSE h \in 0..400 : h * h <= Len2(r) /\ (h + 1) * (h + 1) > Len2(r)
Pythagorean(r) == Hyp(r) * Hyp(r) = Len2(r)
\* exactly on the border of the band is left open (rounding), as is the vertical case's box border
NearBand(r, p) == Cross(r, p) * Cross(r, p) <= r.tol * r.tol * Len2(r)
StrictBand(r, p) == Cross(r, p) * Cross(r, p) < r.tol * r.tol * Len2(r)

\* ratio of the smaller to the larger, against a limit in 16ths
AtLeast(a, b, lim) == 16 * Lesser(a, b) >= lim * Greater(a, b)
Above(a, b, lim) == 16 * Lesser(a, b) > lim * Greater(a, b)
Alike(r, p) == /\ AtLeast(r.ref[1], p[3], r.lim[1]) /\ AtLeast(r.ref[2], p[4], r.lim[2])
               /\ AtLeast(r.ref[3], p[5], r.lim[3]) /\ Above(r.ref[4], p[6], r.lim[4])
Must(r, p) == InBox(r, p) /\ StrictBand(r, p) /\ Alike(r, p)
May(r, p) == InBox(r, p) /\ NearBand(r, p) /\ Alike(r, p)

\* correlation in thousandths, from below, with the accumulated truncation as slack
Part(r, p, i, j) == ((r.ref[4] + p[6]) * 1000 * Lesser(r.ref[i], p[j])) \div Greater(r.ref[i], p[j])
Corr(r, p) == 4 * Part(r, p, 4, 6) + 2 * Part(r, p, 1, 3) + Part(r, p, 2, 4) + Part(r, p, 3, 5)
CorrOk(r, p, c) == c >= Corr(r, p) - 1 /\ c <= Corr(r, p) + 9
DistOk(r, p, d) == Pythagorean(r) => AbsV(d * 8 * Hyp(r) - 1000 * Cross(r, p)) <= 8 * Hyp(r)
=============================================================================
