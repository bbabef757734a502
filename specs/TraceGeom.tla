----------------------------- MODULE TraceGeom -----------------------------
(* Records of rays, projections and positions. Lengths in 10^-7 mm unless     *)
(* said otherwise.                                                             *)
EXTENDS TraceLib
VARIABLE l
S == INSTANCE SkewRays WITH Reach <- 0, Slope <- 0, ray1 <- 0, ray2 <- 0
Close(a, b, t) == Abs(a - b) <= t
AllSmall(s, t) == \A i \in 1..Len(s) : Abs(s[i]) <= t

(* two whole-number rays; result in 10^-4 mm, distance in 1/50 mm *)
SkewOk(a, u, b, v, mid, dist) ==
  LET n == S!N(u, v) m == S!Middle2N(a, u, b, v) g == S!Gap(a, u, b, v) IN
  /\ \A k \in 1..3 : Abs(mid[k] * 2 * n - m[k] * 10000) <= 2 * n
  /\ (IF dist > 0 THEN (dist - 1) * (dist - 1) * n ELSE 0) <= g * g * 2500 /\ g * g * 2500 <= (dist + 1) * (dist + 1) * n

(* whole-number cameras looking straight down through one medium *)
Used(r) == {c \in 1..Len(r.cams) : r.cams[c].used = 1}
Pairs(r) == {p \in Used(r) \X Used(r) : p[1] < p[2]}
At(r, c) == <<r.cams[c].x, r.cams[c].y, r.cams[c].z>>
Dir(r, c) == <<r.cams[c].u, r.cams[c].v, -r.cams[c].cc>>
RECURSIVE SumOver(_, _)
SumOver(f(_), set) == IF set = {} THEN 0 ELSE LET x == CHOOSE y \in set : TRUE IN f(x) + SumOver(f, set \ {x})
\* a pair's middle along k in 10^-4 mm
Mid(r, p, k) == (S!Middle2N(At(r, p[1]), Dir(r, p[1]), At(r, p[2]), Dir(r, p[2]))[k] * 10000) \div (2 * S!N(Dir(r, p[1]), Dir(r, p[2])))
PosFails(r) == LET np == Cardinality(Pairs(r)) IN Failing({
   <<"position-is-mean-of-midpoints", \A k \in 1..3 : Close(r.res[k] * np, SumOver(LAMBDA p : Mid(r, p, k), Pairs(r)), 2 * np)>>,
   \* pair distances as measured one by one, in 10^-6 mm
   <<"measure-is-mean-of-distances", Close(r.rcm * np, SumOver(LAMBDA i : r.pairs[i], 1..Len(r.pairs)), 2 * np) /\ Len(r.pairs) = np>>,
   <<"inputs-untouched", r.same = 1>> })

(* arbitrary cameras and media *)
Tol(r) == IF r.layers = 0 THEN 30 ELSE 15000        \* in space
TolI(r) == IF r.layers = 0 THEN 30 ELSE 3000        \* on the sensor
SceneFails(r) == Failing({
   <<"ray-misses-projected-point", AllSmall(r.miss, Tol(r))>>,
   <<"projected-ray-point-is-elsewhere", AllSmall(r.back, TolI(r))>>,
   <<"distorted-projection-inconsistent", AllSmall(r.dist, TolI(r))>>,
   <<"ray-start-off-the-glass", AllSmall(r.onglass, 30)>>,
   <<"refraction-law", AllSmall(r.snell, 30)>>,
   <<"position-from-projections", AllSmall(r.pos, 3 * Tol(r))>>,
   <<"convergence-measure", AllSmall(r.rcm, 3 * Tol(r))>>,
   <<"inputs-untouched", r.same = 1>> })
(* epipolar segments: both ends seen back in space, ; distances in 10^-4 mm, depths and ray starts in 10^-2 mm *)
Limit(z, x, at) == z[1] * 100 + (((at - 100 * x[1]) * (z[2] - z[1])) \div (x[2] - x[1]))
EpiFails(r) == LET lo == Limit(r.zmin, r.x, r.at) hi == Limit(r.zmax, r.x, r.at) IN Failing({
   <<"segment-end-depth", Close(r.lo, lo, 2) /\ Close(r.hi, hi, 2)>>,
   <<"segment-ends-off-the-ray", AllSmall(r.off, 25)>>,
   <<"middle-point", Close(2 * r.mid, lo + hi, 4) /\ AllSmall(r.midoff, 25)>> })
\* refraction through a stack of layers: the path aimed at the shifted point ends at the point (10^-6 mm; the solver stops at a micrometre)
StackFails(r) == Failing({
   <<"refracted-path-misses-the-point", AllSmall(r.end, 1500)>>,
   <<"shift-not-radial", AllSmall(r.aside, 2) /\ AllSmall(r.ahead, 2)>>,
   <<"inputs-untouched", AllSmall(r.changed, 0)>> })
\* objective of the dumbbell fit, from the positions found one by one; lengths in 10^-4 mm, r.w a whole number
LenErr(r, i) == LET d == r.len[i] b == r.db IN 10000 - ((IF d > b THEN (b * 10000) \div d ELSE (d * 10000) \div b))
DumbFails(r) == LET n == Len(r.rcm) h == n \div 2 IN Failing({
   <<"dumbbell-objective", Close(r.obj * n, SumOver(LAMBDA i : r.rcm[i], 1..n) + 2 * r.w * SumOver(LAMBDA i : LenErr(r, i), 1..h), 2 * n + 4 * r.w * h)>>,
   <<"inputs-untouched", r.same = 1>> })
Fails(r) == CASE r.op = "skew" -> Failing({<<"skew-midpoint", SkewOk(r.a, r.u, r.b, r.v, r.mid, r.gap)>>, <<"inputs-untouched", r.same = 1>>})
              [] r.op = "pos" -> PosFails(r)
              [] r.op = "scene" -> SceneFails(r)
              [] r.op = "epi" -> EpiFails(r)
              [] r.op = "nlay" -> StackFails(r)
              [] r.op = "dumb" -> DumbFails(r)
TraceInit == InitRegs /\ l = 1
TraceNext == l <= Len(Trace) /\ Judge(l, Fails(Trace[l])) /\ Consumed(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
