---------------------------- MODULE TraceCorrPy ----------------------------
(* The Python correspondences() call: what it returns is a packing, split by *)
(* group size, with each target's own position, and the targets it marked    *)
(* carry the index of their group.                                           *)
EXTENDS TraceLib
VARIABLE l
C == INSTANCE Correspond WITH NCams <- 0, Counts <- <<>>, Marks <- {}, Accept <- 0, rel <- <<>>, all <- FALSE,
                              table <- <<>>, stage <- 1, used <- {}
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Group(r, row) == LET cs == {c \in 1..r.cams : row[c] >= 0} IN [c \in cs |-> row[c] + 1]
Fails(r) ==
  LET rows == Flat(r.ids)
      poss == Flat(r.pos)
      tab == [i \in 1..Len(rows) |-> Group(r, rows[i])]
      size(s) == IF r.cams = 1 THEN 1 ELSE r.cams - s + 1
  IN IF ~(\A i \in DOMAIN tab : \A c \in DOMAIN tab[i] : tab[i][c] <= r.n[c]) THEN {"targets-exist"} ELSE Failing({
    <<"one-list-per-size", Len(r.ids) = Max2(1, r.cams - 1) /\ Len(r.pos) = Len(r.ids)>>,
    <<"sizes", \A s \in DOMAIN r.ids : \A i \in DOMAIN r.ids[s] : Cardinality(DOMAIN Group(r, r.ids[s][i])) = size(s)>>,
    <<"no-target-twice", C!Disjoint(tab)>>,
    <<"total", r.total = Len(tab)>>,
    <<"positions", Len(poss) = Len(rows) /\ \A i \in DOMAIN tab : \A c \in 1..r.cams :
          poss[i][c] = IF c \in DOMAIN tab[i] THEN r.targ[c][tab[i][c]] ELSE <<-999000, -999000>> >>,
    <<"target-numbers", \A c \in 1..r.cams : \A t \in 1..r.n[c] :
         LET is == {i \in DOMAIN tab : c \in DOMAIN tab[i] /\ tab[i][c] = t}
         IN r.tnr[c][t] = (IF is = {} THEN -7 ELSE (CHOOSE i \in is : TRUE) - 1)>>,
    <<"single-camera-keeps-all", r.cams = 1 => Len(tab) = r.n[1]>>,
    <<"matched-points-sorted", \A c \in 1..r.cams : /\ Len(r.flat[c]) = r.n[c]
                                                    /\ \A i \in 1..r.n[c] - 1 : r.flat[c][i][1] <= r.flat[c][i + 1][1]
                                                    /\ Range(r.flatnr[c]) = 0..(r.n[c] - 1)>> })
TraceInit == InitRegs /\ l = 1
TraceNext == l <= Len(Trace) /\ Judge(l, Fails(Trace[l])) /\ Consumed(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
