----------------------------- MODULE TraceCorr -----------------------------
(* Records of the real matching: the relation it worked on (r.w), and the    *)
(* table, counts and target numbers it produced.  Records of kind "pairs"    *)
(* compare the relation built from images with the epipolar search itself.   *)
EXTENDS TraceLib
VARIABLE l
C == INSTANCE Correspond WITH NCams <- 0, Counts <- <<>>, Marks <- {}, Accept <- 0, rel <- <<>>, all <- FALSE,
                              table <- <<>>, stage <- 1, used <- {}
Group(r, row) == LET cs == {c \in 1..r.cams : row[c] >= 0} IN [c \in cs |-> row[c] + 1]
FailsTable(r) ==
  LET tab == [i \in 1..Len(r.table) |-> Group(r, r.table[i])]
      k(i) == Cardinality(DOMAIN tab[i])
      all == r.all = 1
      inrange == \A i \in 1..Len(tab) : \A c \in DOMAIN tab[i] : tab[i][c] <= r.n[c]
  IN IF ~inrange THEN {"targets-exist"} ELSE Failing({
    <<"no-target-twice", C!Disjoint(tab)>>,
    <<"legal-groups", C!Legal(r.w, r.n, r.cams, r.accept, all, tab)>>,
    <<"largest-first", C!LargestFirst(tab)>>,
    <<"best-first", C!BestFirst(r.w, tab)>>,
    <<"nothing-better-left-out", C!Complete(r.w, r.n, r.cams, r.accept, all, tab)>>,
    <<"matches-the-given-scene", r.kind = "scene" \/ r.args = 1>>,
    <<"counts", /\ \A s \in 1..3 : r.counts[s] = Cardinality({i \in 1..Len(tab) : k(i) = 5 - s})
                /\ r.counts[4] = Len(tab)>>,
    <<"rating", r.kind = "scene" \/ \A i \in 1..Len(tab) : Abs(r.corr[i] * C!Den(r.w, tab[i]) - 1000 * C!Num(r.w, tab[i])) <= C!Den(r.w, tab[i])>>,
    <<"target-numbers", \A c \in 1..r.cams : \A t \in 1..r.n[c] :
         LET is == {i \in 1..Len(tab) : c \in DOMAIN tab[i] /\ tab[i][c] = t}
         IN r.tnr[c][r.pnr[c][t] + 1] = (IF is = {} THEN -7 ELSE (CHOOSE i \in is : TRUE) - 1)>> })
\* real images: the lists hold exactly what the epipolar search finds, and nothing for unused points
FailsPairs(r) == Failing({ <<"relation-is-the-epipolar-search", r.got = r.want>> })
\* a crowd: every target related to every other, all rated the same, so exactly r.n groups of all cameras (none
\* unambiguous, so no pairs) whatever the number of candidates
FailsCrowd(r) ==
  LET tab == [i \in 1..Len(r.table) |-> Group(r, r.table[i])]
      groups == IF r.cams = 2 THEN 0 ELSE r.n
  IN Failing({
    <<"counts", r.counts = [s \in 1..4 |-> IF s = 5 - r.cams \/ s = 4 THEN groups ELSE 0]>>,
    <<"whole-groups", \A i \in 1..Len(tab) : DOMAIN tab[i] = 1..r.cams>>,
    <<"every-target-once", groups > 0 => \A c \in 1..r.cams : {r.table[i][c] : i \in 1..Len(tab)} = 0..(r.n - 1)>>,
    <<"matches-the-given-scene", r.args = 1>>,
    <<"target-numbers", \A c \in 1..r.cams : \A i \in 1..Len(tab) : r.tnr[c][r.table[i][c] + 1] = i - 1>> })
\* python call on the same scene: groups by size, ids and positions
FailsPy(r) == Failing({ <<"ids", r.pyids = r.ids>>, <<"positions", r.pypos = r.pos>>, <<"total", r.pytotal = r.total>> })
Fails(r) == CASE r.kind \in {"table", "scene"} -> FailsTable(r) [] r.kind = "crowd" -> FailsCrowd(r) [] r.kind = "pairs" -> FailsPairs(r) [] r.kind = "py" -> FailsPy(r)
TraceInit == InitRegs /\ l = 1
TraceNext == l <= Len(Trace) /\ Judge(l, Fails(Trace[l])) /\ Consumed(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
