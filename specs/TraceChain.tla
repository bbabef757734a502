----------------------------- MODULE TraceChain -----------------------------
(* The real chain on pictures made from known particles. Pictures in 1/100    *)
(* pixel, positions in um. Particles are told apart by where they are; all    *)
(* numberings are the program's own.                                          *)
EXTENDS TraceLib
VARIABLE l
K == INSTANCE Chain
Ids(r, f) == {r.truth[f][i].id : i \in DOMAIN r.truth[f]}
\* points taken away before they were stored, for tracking to add again
Lost(r, f) == {r.truth[f][i].id : i \in {j \in DOMAIN r.truth[f] : r.truth[f][j].lost = 1}}
True(r, f, k) == r.truth[f][CHOOSE i \in DOMAIN r.truth[f] : r.truth[f][i].id = k]
SeenBy(r, f, c) == {k \in Ids(r, f) : True(r, f, k).seen[c][1] = 1}
CamsOf(r, f, k) == {c \in 1..r.cams : True(r, f, k).seen[c][1] = 1}
\* a quarter of a pixel
AtPicture(t, s) == Abs(t[1] - s[2]) <= 25 /\ Abs(t[2] - s[3]) <= 25
\* the particles a target shows
ShownBy(r, f, c, t) == {k \in SeenBy(r, f, c) : AtPicture(t, True(r, f, k).seen[c])}
\* at the place, less exact along the line of sight
AtPlace(x, y) == Abs(x[1] - y[1]) <= 30 /\ Abs(x[2] - y[2]) <= 30 /\ Abs(x[3] - y[3]) <= 120

TargetsOk(r, st, f, c) ==
  LET tg == st[f].tg[c] IN
  /\ Len(tg) = Cardinality(SeenBy(r, f, c))
  /\ \A j \in DOMAIN tg : Cardinality(ShownBy(r, f, c, tg[j])) = 1
  /\ UNION {ShownBy(r, f, c, tg[j]) : j \in DOMAIN tg} = SeenBy(r, f, c)
\* the numbering of the targets and of the points, as particles
TgIds(r, st, f) == [c \in 1..r.cams |-> [j \in DOMAIN st[f].tg[c] |-> CHOOSE k \in ShownBy(r, f, c, st[f].tg[c][j]) : TRUE]]
PointsOk(r, st, f, ids) ==
  /\ Len(st[f].x) = Cardinality(ids)
  /\ \A i \in DOMAIN st[f].x : \E k \in ids : AtPlace(st[f].x[i], True(r, f, k).x)
  /\ \A k \in ids : \E i \in DOMAIN st[f].x : AtPlace(st[f].x[i], True(r, f, k).x)
PtIds(r, st) == [f \in 1..r.frames |-> [i \in DOMAIN st[f].x |-> CHOOSE k \in Ids(r, f) : AtPlace(st[f].x[i], True(r, f, k).x)]]

\* stage st shows the particles ids(f) of every frame
Found(r, st, ids) ==
  LET F == 1..r.frames
      bad == Failing({ <<"stored", \A f \in F : st[f].ok = 1>>,
                       <<"targets", \A f \in F, c \in 1..r.cams : TargetsOk(r, st, f, c)>>,
                       <<"points", \A f \in F : PointsOk(r, st, f, ids[f])>> })
  IN IF bad # {} THEN bad ELSE
     LET pts == PtIds(r, st) IN
     Failing({ <<"targets-of-points", \A f \in F : LET tg == TgIds(r, st, f) IN \A i \in DOMAIN pts[f] : st[f].p[i] = K!Refs(tg, pts[f][i])>>,
               <<"points-of-targets", \A f \in F : LET tg == TgIds(r, st, f) IN \A c \in 1..r.cams : st[f].own[c] = [j \in DOMAIN tg[c] |-> K!Owner(pts[f], tg[c][j])]>> })
Groups(r) ==
  LET n(f, s) == Cardinality({k \in Ids(r, f) : Cardinality(CamsOf(r, f, k)) = s})
  IN Failing({ <<"group-counts", \A f \in 1..r.frames : r.counts[f] = <<n(f, 4), n(f, 3), n(f, 2), Cardinality(Ids(r, f))>> >> })
All(r) == [f \in 1..r.frames |-> Ids(r, f)]
Kept(r) == [f \in 1..r.frames |-> Ids(r, f) \ Lost(r, f)]
\* a tracked stage: what was found is kept, lost points come after it, and the links are the particles' own paths
Begins(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Tracked(r, st) ==
  LET F == 1..r.frames
      bad == Found(r, st, All(r)) \cup
             Failing({ <<"kept", \A f \in F : Begins(st[f].x, r.found[f].x) /\ Begins(st[f].p, r.found[f].p) /\ st[f].tg = r.found[f].tg>> })
  IN IF bad # {} THEN bad ELSE
     LET pts == PtIds(r, st) IN
     Failing({ <<"successors", \A f \in F : st[f].next = [i \in DOMAIN pts[f] |-> K!NextOf(pts, f, pts[f][i])]>>,
               <<"predecessors", \A f \in F : st[f].prev = [i \in DOMAIN pts[f] |-> K!PrevOf(pts, f, pts[f][i])]>> })
Named(s, w) == {w \o "-" \o x : x \in s}
Fails(r) == IF r.drawn = 0 THEN {"no-scene"} ELSE
            LET a == Named(Found(r, r.found, Kept(r)), "found") \cup Groups(r)
            IN IF a # {} THEN a ELSE Named(Tracked(r, r.forward), "forward") \cup Named(Tracked(r, r.backward), "backward")
TraceInit == InitRegs /\ l = 1
TraceNext == l <= Len(Trace) /\ Judge(l, Fails(Trace[l])) /\ Consumed(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
