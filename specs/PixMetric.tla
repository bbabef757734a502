----------------------------- MODULE PixMetric -----------------------------
(* Pixel and metric image coordinates in whole numbers: pixels in 1/16,       *)
(* pixel pitches in 1/1024 mm, so metric values are whole in 1/16384 mm.      *)
(* Mode 0: full frames; 1, 2: fields holding the odd, even lines of a frame.  *)
EXTENDS Integers
Line(b, mode) == CASE mode = 0 -> b [] mode = 1 -> 2 * b + 16 [] mode = 2 -> 2 * b
ToMetric(s, pt) == << (pt[1] - 8 * s.imx) * s.px, (8 * s.imy - Line(pt[2], s.mode)) * s.py >>
\* doubled pixel coordinates (1/32), as halving a line number may leave an odd sixteenth
ToPixel2(s, m) == LET line == 8 * s.imy - (m[2] \div s.py) IN
  << 2 * ((m[1] \div s.px) + 8 * s.imx), CASE s.mode = 0 -> 2 * line [] s.mode = 1 -> line - 16 [] s.mode = 2 -> line >>

CONSTANTS Sizes, Pitches, Coords
VARIABLES s, pt, at, stage
vars == <<s, pt, at, stage>>
Init == /\ s \in [imx : Sizes, imy : Sizes, px : Pitches, py : Pitches, mode : 0..2]
        /\ pt \in Coords \X Coords /\ at = pt /\ stage = "pixel"
There == stage = "pixel" /\ stage' = "metric" /\ at' = ToMetric(s, pt) /\ UNCHANGED <<s, pt>>
Back == stage = "metric" /\ stage' = "back" /\ at' = ToPixel2(s, at) /\ UNCHANGED <<s, pt>>
Next == There \/ Back
Spec == Init /\ [][Next]_vars
RoundTrip == stage = "back" => at = <<2 * pt[1], 2 * pt[2]>>
Centre == (stage = "metric" /\ pt[1] = 8 * s.imx /\ Line(pt[2], s.mode) = 8 * s.imy) => at = <<0, 0>>
Grows == stage = "metric" => LET r == ToMetric(s, <<pt[1] + 1, pt[2]>>) d == ToMetric(s, <<pt[1], pt[2] + 1>>)
                             IN r[1] > at[1] /\ r[2] = at[2] /\ d[2] < at[2] /\ d[1] = at[1]
=============================================================================
