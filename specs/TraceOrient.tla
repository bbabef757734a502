---------------------------- MODULE TraceOrient ----------------------------
(* Fits of the real code.  moved and off (result against start and against the true camera) count   *)
(* units of about a micrometre in the image: x y z, angles, then the ten sensor and distortion        *)
(* parameters in the order of their flags, then the three components of the glass vector.            *)
EXTENDS TraceLib
VARIABLE l
O == INSTANCE OrientFit WITH Groups <- 11, MaxIter <- 1, UseModes <- {}, flags <- {}, use <- 0, cam <- <<>>, work <- <<>>, it <- 0, verdict <- ""
Used(r) == {i \in 0 .. r.n - 1 : IF r.kind = "raw" THEN TRUE ELSE O!Takes(r.use, i, r.pnr[i + 1])}
Glass(r) == r.flags[11] = 1
\* group of the k-th parameter: 0 exterior
GroupOf(k) == IF k <= 6 THEN 0 ELSE IF k <= 16 THEN k - 6 ELSE 11
Free(r, k) == GroupOf(k) = 0 \/ (r.kind = "fit" /\ r.flags[GroupOf(k)] = 1)
\* the k-th point in use (from 1)
RECURSIVE Nth(_, _)
Nth(S, k) == LET m == CHOOSE v \in S : \A w \in S : v <= w IN IF k = 1 THEN m ELSE Nth(S \ {m}, k - 1)
Big == 1000000000
\* points well spread and enough of them, a start nearby, nothing the model can't represent
Good(r) == /\ r.noise = 0 /\ r.shift < 2 /\ (IF r.kind = "raw" THEN r.n >= 4 /\ r.dist = 0 ELSE Cardinality(Used(r)) >= 12)
           /\ (r.kind = "fit" /\ Glass(r)) => r.water = 1
           /\ r.kind = "raw" => \A i \in DOMAIN r.pnr : r.pnr[i] = i - 1
AtStart(r) == Good(r) /\ r.pert = 0
Moved(r) == {k \in DOMAIN r.moved : Abs(r.moved[k]) > 0}
FailsDeriv(r) ==
  Failing({ <<"camera-intact", \A k \in DOMAIN r.moved : r.moved[k] = 0>>, <<"rotation-matches-angles", r.rot <= 1>>,
            <<"derivatives", \A k \in DOMAIN r.d : \A a \in 1..2 : Abs(r.d[k][a] - r.d[k][a + 2]) <= 50 + Abs(r.d[k][a + 2]) \div 500>> })
FailsFit(r) ==
  LET u == Used(r) ok == r.ok = 1 pts == {i + 1 : i \in u}
  IN Failing({
    <<"inputs-intact", r.inputs = 1>>,
    <<"untouched-on-failure", ok \/ r.untouched = 1>>,
    <<"only-asked", \A k \in Moved(r) : Free(r, k) \/ (r.kind = "raw" /\ k \in 10..16)>>,
    <<"raw-neutral", r.kind = "raw" /\ ok => r.neutral = 1>>,
    <<"rotation-matches-angles", ok => r.rot <= 1>>,
    <<"underdetermined", (IF r.kind = "raw" THEN r.n >= 3 ELSE O!Enough(Cardinality(u), Glass(r))) \/ ~ok>>,
    <<"unused-points-ignored", {r.scr[k] : k \in DOMAIN r.scr} \cap u = {} => r.same = 1>>,
    <<"used-points-count", Cardinality(u) >= (IF r.kind = "raw" THEN 4 ELSE 6) /\ ok /\ {r.scr[k] : k \in DOMAIN r.scr} \cap u # {} => r.same = 0>>,
    <<"solved", Good(r) => ok>>,
    <<"recovers", Good(r) /\ ok => \A i \in pts : \A a \in 1..2 : Abs(r.rep[i][a]) <= 60>>,
    <<"fixed-point", AtStart(r) => \A k \in DOMAIN r.off : (k <= 16 /\ ~(r.kind = "raw" /\ k \in 10..16)) => Abs(r.off[k]) <= 100>>,
    \* residuals: two per point in use, in order, of the projection by the fitted camera
    <<"residuals", r.kind = "fit" /\ ok /\ Cardinality(u) >= 6 =>
        \A k \in 1..Cardinality(u) : LET i == Nth(u, k) + 1
                                     IN Abs(r.resi[2 * k - 1] - r.rep[i][3]) <= 20 /\ Abs(r.resi[2 * k] - r.rep[i][4]) <= 20>>,
    \* noisy points: no nearby camera (adjusting one free parameter) is better
    <<"best-nearby", \A k \in 2..Len(r.near) : r.near[k] >= r.near[1] - 2>>,
    <<"overall-error", r.kind = "fit" /\ ok /\ r.near # <<>> /\ Cardinality(u) >= 6 =>
        LET v == (((r.sigma \div 100) * (r.sigma \div 100)) * (2 * Cardinality(u) + 10 - (IF Glass(r) THEN 18 ELSE 16))) \div 10
        IN Abs(v - r.near[1]) <= r.near[1] \div 10 + 20>> })

Fails(r) == IF r.kind = "deriv" THEN FailsDeriv(r) ELSE FailsFit(r)

TraceInit == InitRegs /\ l = 1
TraceNext == l <= Len(Trace) /\ Judge(l, Fails(Trace[l])) /\ Consumed(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
