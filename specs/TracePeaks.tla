----------------------------- MODULE TracePeaks -----------------------------
(* Records of peak_fit: image, window, limits and the targets reported. *)
EXTENDS TraceLib
VARIABLE l
K == INSTANCE Peaks WITH Q <- 0, Inner <- {}, Greys <- {}, im <- 0, spots <- <<>>, groups <- {}, phase <- ""
Near(got, sum, wt) == Abs((got - 500) * wt - 1000 * sum) <= wt
Same(t, f) == t.n = f.n /\ t.nx = f.nx /\ t.ny = f.ny /\ t.sumg = f.sumg /\ Near(t.x, f.xs, f.sumg) /\ Near(t.y, f.ys, f.sumg)
Accepts(lim, f) == /\ f.n >= lim[1] /\ f.n <= lim[2] /\ f.nx >= lim[3] /\ f.nx <= lim[4]
                   /\ f.ny >= lim[5] /\ f.ny <= lim[6] /\ f.sumg > lim[7]
\* cut off by the edge of a window of some size; "either" at its lower edge
Cut(q, f) == IF q.x1 - q.x0 <= 32 THEN "no"
             ELSE IF f.x0 = q.x0 \/ f.y0 = q.y0 \/ f.x1 = q.x1 - 1 THEN "yes"
             ELSE IF f.y1 >= q.y1 - 1 THEN "either" ELSE "no"
RECURSIVE Reach(_, _, _)
Reach(t, i, seen) == LET new == UNION {t[k] : k \in seen} \ seen IN IF new = {} THEN seen ELSE Reach(t, i, seen \cup new)
\* all ways to split a small set
RECURSIVE Splits(_)
Splits(s) == IF s = {} THEN {{}}
             ELSE LET x == CHOOSE y \in s : TRUE IN
                  UNION {{ {g \cup {x}} \cup rest : rest \in Splits(s \ (g \cup {x}))} : g \in SUBSET (s \ {x})}
FailsImage(r) ==
  LET q == K!Clip([w |-> r.w, h |-> r.h, thres |-> r.thres, disco |-> r.disco, x0 |-> r.win[1], x1 |-> r.win[2], y0 |-> r.win[3], y1 |-> r.win[4]])
      img == [p \in 0..(r.w * r.h - 1) |-> r.img[p + 1]]
      sp == K!Spots(q, img, {}, 0)
      t == [i \in DOMAIN sp |-> {j \in DOMAIN sp : i # j /\ K!Touch(q.w, sp[i], sp[j])}]
      clusters == {Reach(t, i, {i}) : i \in DOMAIN sp}
      pixof(g) == UNION {sp[i].pix : i \in g}
      \* the ways a cluster may come out: sets of groups
      ways(c) == IF Cardinality(c) = 1 THEN {{c}}
                 ELSE IF Cardinality(c) = 2
                 THEN LET a == CHOOSE x \in c : \A y \in c : x <= y
                          b == CHOOSE x \in c : x # a
                          j == K!Joined(q, img, sp[a], sp[b])
                      IN (IF j # "valley" THEN {{c}} ELSE {}) \cup (IF j # "level" THEN {{{a}, {b}}} ELSE {})
                 ELSE Splits(c)
      \* what a group may give: a target or none
      fate(g) == LET f == K!Facts(q.w, img, pixof(g)) IN
                 [f |-> f, shown |-> Accepts(r.lim, f) /\ Cut(q, f) # "yes", must |-> Accepts(r.lim, f) /\ Cut(q, f) = "no"]
      shows(f) == \E k \in 1..Len(r.got) : Same(r.got[k], f)
      fits(way) == \A g \in way : LET e == fate(g) IN e.must => shows(e.f)
      small == {c \in clusters : Cardinality(c) <= 4}
      \* every target is a group of one cluster
      known(k) == \/ \E c \in clusters \ small : TRUE
                  \/ \E c \in small : \E way \in ways(c) : \E g \in way : LET e == fate(g) IN e.shown /\ Same(r.got[k], e.f)
      all == r.lim[1] <= 1 /\ r.lim[2] > 9999 /\ r.lim[3] <= 1 /\ r.lim[4] > 9999 /\ r.lim[5] <= 1 /\ r.lim[6] > 9999 /\ r.lim[7] = 0 /\ q.x1 - q.x0 <= 32
      RECURSIVE Total(_)
      Total(k) == IF k = 0 THEN 0 ELSE r.got[k].n + Total(k - 1)
  IN Failing({
       <<"spot-missing", \A c \in small : \E way \in ways(c) : fits(way)>>,
       <<"target-that-is-no-spot", \A k \in 1..Len(r.got) : known(k)>>,
       <<"pixels-counted-once", all => Total(Len(r.got)) = Cardinality(pixof(DOMAIN sp))>>,
       <<"too-many-targets", Len(r.got) <= Len(sp)>>,
       <<"numbering", \A k \in 1..Len(r.got) : r.got[k].pnr = k - 1 /\ r.got[k].tnr = -1>>,
       <<"input-unchanged", r.same = 1>> })
\* images too large to list: n alike spots of known facts
FailsMany(r) == Failing({ <<"number-of-targets", Len(r.got) = r.want[1]>>,
                          <<"facts", \A k \in 1..Len(r.got) : r.got[k].n = r.want[2] /\ r.got[k].sumg = r.want[3]>>,
                          <<"all-of-them", Cardinality({<<r.got[k].x, r.got[k].y>> : k \in 1..Len(r.got)}) = r.want[1]>> })
Fails(r) == CASE r.kind = "peaks" -> FailsImage(r) [] r.kind = "many" -> FailsMany(r)
TraceInit == InitRegs /\ l = 1
TraceNext == l <= Len(Trace) /\ Judge(l, Fails(Trace[l])) /\ Consumed(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
