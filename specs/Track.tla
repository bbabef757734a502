-------------------------------- MODULE Track --------------------------------
(* One step of frame-to-frame tracking, forward and backward, as a function    *)
(* of the four frames in the window.  Positions are integer vectors in units   *)
(* of half a millimetre; image positions are integers in half pixels, because  *)
(* the cameras are parallel projections with integer rows (in pixel/mm).       *)
(*                                                                             *)
(* A frame: [x: positions, prev: 0-based index in the frame before or -1,      *)
(*  corr: per particle and camera the 0-based target index or -1,              *)
(*  tg: per camera the targets <<x, y, owner, ghost>>], owner -1 = unclaimed;  *)
(*  ghost = the number of the scene point an unclaimed target belongs to;       *)
(*  old: how many of the particles were there before any was added]             *)
(* g: [imx, imy, cams: <<[u, v]>>, dv: 6 velocity bounds in 1/100 mm,          *)
(*  dacc in um, dang in 1/1000 gon, add, zlo, zhi (half mm), ghosts]           *)
EXTENDS Integers, Sequences, FiniteSets

\* ---------------------------------------------------------------- arithmetic
RECURSIVE IsqrtR(_, _)
IsqrtR(n, x) == LET y == (x + (n \div x)) \div 2 IN IF y >= x THEN x ELSE IsqrtR(n, y)
Isqrt(n) == IF n = 0 THEN 0 ELSE IsqrtR(n, IF n < 10000 THEN 101 ELSE IF n < 1000000 THEN 1001 ELSE 46341)
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Mul(k, a) == <<k * a[1], k * a[2], k * a[3]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Sq(a) == Dot(a, a)
\* length of an integer vector of squared length n (half mm), in um
Um(n) == IF n <= 8000 THEN Isqrt(n * 250000) ELSE IF n <= 800000 THEN 10 * Isqrt(n * 2500) ELSE 100 * Isqrt(n * 25)
Dist(a, b) == Um(Sq(Sub(a, b)))

\* arc tangents of 0, 1/64, ... 1 in 1/1000 gon
AT == <<0, 995, 1989, 2982, 3974, 4964, 5951, 6935, 7917, 8894, 9867, 10836, 11800, 12758, 13710, 14656,
        15596, 16529, 17454, 18372, 19282, 20184, 21078, 21964, 22840, 23708, 24566, 25415, 26255, 27085, 27905, 28716,
        29517, 30308, 31088, 31859, 32620, 33370, 34111, 34841, 35562, 36272, 36972, 37662, 38343, 39013, 39674, 40325,
        40967, 41598, 42221, 42834, 43438, 44032, 44618, 45194, 45762, 46321, 46872, 47414, 47947, 48472, 48990, 49499,
        50000>>
Atan01(c, d) ==  \* c <= d
  LET q == (c * 40000) \div d
      i == q \div 625
  IN IF i >= 64 THEN 50000 ELSE AT[i + 1] + ((AT[i + 2] - AT[i + 1]) * (q % 625)) \div 625
\* angle between two vectors, in 1/1000 gon; -1 when undefined (one of them, but not both, is zero)
Angle(v0, v1) ==
  IF v0 = Mul(-1, v1) THEN 200000
  ELSE IF v0 = v1 THEN 0
  ELSE LET n0 == Sq(v0) n1 == Sq(v1) d == Dot(v0, v1) cr == n0 * n1 - d * d
           s == IF cr <= 2000 /\ d <= 44 /\ d >= -44 THEN 1000 ELSE IF cr <= 200000 /\ d <= 440 /\ d >= -440 THEN 100 ELSE 10
           c == Isqrt(cr * s * s)
           a == s * (IF d < 0 THEN -d ELSE d)
           h == IF c <= a THEN Atan01(c, a) ELSE 100000 - Atan01(a, c)
       IN IF n0 = 0 \/ n1 = 0 THEN -1 ELSE IF d < 0 THEN 200000 - h ELSE h

\* ---------------------------------------------------------------- limits
InBounds(g, v) == \A k \in 1..3 : g.dv[2 * k - 1] < 50 * v[k] /\ 50 * v[k] < g.dv[2 * k]
\* "y", "n", or "?" where the real computation may go either way
Less(a, b, margin) == IF a < b - margin THEN "y" ELSE IF a > b + margin THEN "n" ELSE "?"
Both(a, b) == IF a = "n" \/ b = "n" THEN "n" ELSE IF a = "y" /\ b = "y" THEN "y" ELSE "?"
Either(a, b) == IF a = "y" \/ b = "y" THEN "y" ELSE IF a = "n" /\ b = "n" THEN "n" ELSE "?"
Allowed(g, acc, ang) == Either(Both(Less(acc, g.dacc, 3), IF ang = -1 THEN "n" ELSE Less(ang, g.dang, 20)), Less(10 * acc, g.dacc, 30))
\* between computed positions, no displacement leaves the direction to the last digits (inx: one of the points is computed)
Soft(inx, from, a, b) == inx /\ (from = a \/ from = b)
AllowedIf(g, soft, acc, ang) == IF soft THEN Either(Less(10 * acc, g.dacc, 30), IF Less(acc, g.dacc, 3) = "n" THEN "n" ELSE "?") ELSE Allowed(g, acc, ang)
AngIf(soft, ang) == IF soft THEN -1 ELSE ang
\* velocity change when the particle goes from a to c instead of to b as predicted
Acc(a, b, c) == Dist(b, c)
Ang(a, b, c) == Angle(Sub(b, a), Sub(c, a))
LMax(g) == 10 * Isqrt((g.dv[1] - g.dv[2]) * (g.dv[1] - g.dv[2]) + (g.dv[3] - g.dv[4]) * (g.dv[3] - g.dv[4]) + (g.dv[5] - g.dv[6]) * (g.dv[5] - g.dv[6]))
\* decision value in 1/10000: displacement, acceleration and angle, each relative to its limit, over the number of sightings
Cost(g, dl, acc, ang, quali) == (((dl * 10000) \div LMax(g)) + ((acc * 10000) \div g.dacc) + (ang * 1000) \div (g.dang \div 10)) \div quali
Eps == 12

\* ---------------------------------------------------------------- image space
Proj(g, c, x) == <<g.imx + Dot(g.cams[c].u, x), g.imy + Dot(g.cams[c].v, x)>>
MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
SumLo(g, r) == LET m(k) == MinOf(r[k] * g.dv[2 * k - 1], r[k] * g.dv[2 * k]) IN m(1) + m(2) + m(3)
SumHi(g, r) == LET m(k) == MaxOf(r[k] * g.dv[2 * k - 1], r[k] * g.dv[2 * k]) IN m(1) + m(2) + m(3)
\* the stretch searched along one image axis, in 1/100 pixel: p = where the search is centred, c = the
\* projection of the search volume's centre (both half pixels), size = image size in pixels
Stretch(g, row, p, c, size) ==
  LET near == MaxOf(0, MinOf(100 * size, 50 * c + SumLo(g, row)))
      far == MinOf(100 * size, MaxOf(0, 50 * c + SumHi(g, row)))
  IN <<MaxOf(0, 50 * p + near - 50 * c), MinOf(100 * size, 50 * p + far - 50 * c)>>
Within(t, sx, sy) == sx[1] < 50 * t[1] /\ 50 * t[1] < sx[2] /\ sy[1] < 50 * t[2] /\ 50 * t[2] < sy[2]
Centred(g, p) == 0 <= p[1] /\ p[1] <= 2 * g.imx /\ 0 <= p[2] /\ p[2] <= 2 * g.imy
OnEdge(g, p) == p[1] \in {0, 2 * g.imx} \/ p[2] \in {0, 2 * g.imy}
D2(t, p) == (t[1] - p[1]) * (t[1] - p[1]) + (t[2] - p[2]) * (t[2] - p[2])

\* the (at most) n nearest of the target indices S, nearest first; tie: an undecidable order or choice
RECURSIVE NearSeq(_, _, _, _)
NearSeq(tg, p, S, n) ==
  IF S = {} \/ n = 0 THEN <<>>
  ELSE LET i == CHOOSE i \in S : \A j \in S : D2(tg[i], p) < D2(tg[j], p) \/ (D2(tg[i], p) = D2(tg[j], p) /\ i <= j)
       IN <<i>> \o NearSeq(tg, p, S \ {i}, n - 1)
CamCands(g, f, c, p, x) ==
  LET ctr == Proj(g, c, x)
      sx == Stretch(g, g.cams[c].u, p[1], ctr[1], g.imx)
      sy == Stretch(g, g.cams[c].v, p[2], ctr[2], g.imy)
      tg == f.tg[c]
      S == IF Centred(g, p) THEN {i \in 1..Len(tg) : tg[i][3] # -1 /\ Within(tg[i], sx, sy)} ELSE {}
      q == NearSeq(tg, p, S, 4)
      rest == S \ {q[k] : k \in DOMAIN q}
  IN [ids |-> [k \in DOMAIN q |-> tg[q[k]][3]],
      cut |-> (\E i \in rest : D2(tg[i], p) = D2(tg[q[4]], p)) \/ OnEdge(g, p),
      tie |-> \E k \in DOMAIN q : k > 1 /\ D2(tg[q[k]], p) = D2(tg[q[k - 1]], p)]

\* candidates around x, sought in camera c around the image position pr[c]: sequence of <<particle, sightings>>,
\* most often seen first, then in the order met.  amb: not decidable; tie: their order is not
RECURSIVE Uniq(_, _)
Uniq(s, seen) == IF s = <<>> THEN <<>>
                 ELSE IF Head(s) \in seen THEN Uniq(Tail(s), seen) ELSE <<Head(s)>> \o Uniq(Tail(s), seen \cup {Head(s)})
Cands(g, f, pr, x) ==
  LET n == Len(g.cams)
      cc == [c \in 1..n |-> CamCands(g, f, c, pr[c], x)]
      all == LET RECURSIVE J(_)
                 J(c) == IF c > n THEN <<>> ELSE cc[c].ids \o J(c + 1) IN J(1)
      order == Uniq(all, {})
      freq(id) == Cardinality({c \in 1..n : \E k \in DOMAIN cc[c].ids : cc[c].ids[k] = id})
      byfreq(k) == SelectSeq(order, LAMBDA id : freq(id) = k)
      ids == byfreq(4) \o byfreq(3) \o byfreq(2)
      tie == \E c \in 1..n : cc[c].tie
  IN IF ids # <<>> THEN [w |-> [k \in DOMAIN ids |-> <<ids[k], freq(ids[k])>>], amb |-> \E c \in 1..n : cc[c].cut, tie |-> tie]
     ELSE IF order # <<>> THEN [w |-> << <<order[1], 1>> >>, amb |-> tie \/ \E c \in 1..n : cc[c].cut, tie |-> FALSE]
     ELSE [w |-> <<>>, amb |-> \E c \in 1..n : cc[c].cut, tie |-> FALSE]

\* the nearest unclaimed target within 3 pixels of the projection of x, per camera (0: none)
Loose(g, f, c, x) ==
  LET p == Proj(g, c, x)
      lo(v) == MaxOf(0, v - 6)
      hi(v, m) == MinOf(2 * m, v + 6)
      S == IF Centred(g, p) THEN {i \in 1..Len(f.tg[c]) : LET t == f.tg[c][i] IN /\ t[3] = -1
                     /\ lo(p[1]) < t[1] /\ t[1] < hi(p[1], g.imx) /\ lo(p[2]) < t[2] /\ t[2] < hi(p[2], g.imy)} ELSE {}
      \* on the edge of the window the last digits decide
      rim == OnEdge(g, p) \/ \E i \in 1..Len(f.tg[c]) : LET t == f.tg[c][i] dx == t[1] - p[1] dy == t[2] - p[2] IN
                 t[3] = -1 /\ (dx \in {-6, 6} \/ dy \in {-6, 6}) /\ dx \in -6..6 /\ dy \in -6..6
      q == NearSeq(f.tg[c], p, S, 2)
  IN [i |-> IF q = <<>> THEN 0 ELSE q[1],
      amb |-> rim \/ (Len(q) = 2 /\ D2(f.tg[c][q[1]], p) = D2(f.tg[c][q[2]], p))]
\* where the rays of those targets meet: known when they all belong to one scene point
NewPoint(g, f, x) ==
  LET L == [c \in 1..Len(g.cams) |-> Loose(g, f, c, x)]
      found == {c \in DOMAIN L : L[c].i # 0}
      gh == {f.tg[c][L[c].i][4] : c \in found}
  IN [n |-> Cardinality(found), at |-> [c \in DOMAIN L |-> L[c].i],
      x |-> IF Cardinality(gh) = 1 THEN g.ghosts[CHOOSE k \in gh : TRUE] ELSE <<0, 0, 0>>,
      amb |-> (\E c \in DOMAIN L : L[c].amb) \/ (Cardinality(found) >= 2 /\ Cardinality(gh) > 1)]
InDepth(g, x) == g.zlo < x[3] /\ x[3] < g.zhi
AddTo(f, np) ==
  LET k == Len(f.x) IN
  [old |-> f.old, x |-> Append(f.x, np.x), prev |-> Append(f.prev, -1),
   corr |-> Append(f.corr, [c \in DOMAIN np.at |-> np.at[c] - 1]),
   tg |-> [c \in DOMAIN f.tg |-> IF np.at[c] = 0 THEN f.tg[c]
             ELSE [f.tg[c] EXCEPT ![np.at[c]] = <<@[1], @[2], k, @[4]>>]]]

\* ---------------------------------------------------------------- a forward step
\* candidates for particle h of f1: st = [f2, f3, c: sequence of <<cost, particle of f2>>, amb]
Rate(g, st, dl, acc, ang, quali, id, ok) ==
  IF ok = "?" \/ (ok = "y" /\ ang = -1) THEN [st EXCEPT !.amb = TRUE]
  ELSE IF ok = "y" THEN [st EXCEPT !.c = Append(@, <<Cost(g, dl, acc, ang, quali), id>>)] ELSE st
RECURSIVE Ahead(_, _, _, _, _, _, _, _, _, _, _)
\* the continuations wn[k..] of candidate <<id, freq>> at X3
Ahead(g, st, hasprev, inx, X1, X2, X3, X5, wf, wn, k) ==
  IF k > Len(wn) THEN st
  ELSE LET X4 == st.f3.x[wn[k][1] + 1]
           acc1 == Acc(X3, X4, X5) ang1 == Ang(X3, X4, X5)
           acc0 == IF hasprev THEN Acc(X1, X2, X3) ELSE acc1
           ang0 == IF hasprev THEN Ang(X1, X2, X3) ELSE ang1
           acc == (acc0 + acc1) \div 2
           soft == Soft(inx \/ wn[k][1] >= st.f3.old, X3, X4, X5) \/ (hasprev /\ Soft(inx, X1, X2, X3))
           ang == IF ang0 = -1 \/ ang1 = -1 THEN -1 ELSE (ang0 + ang1) \div 2
           nst == IF InBounds(g, Sub(X4, X3))
                  THEN Rate(g, st, (Dist(X1, X3) + Dist(X4, X3)) \div 2, acc, AngIf(soft, ang), wn[k][2] + wf[2], wf[1], AllowedIf(g, soft, acc, ang))
                  ELSE st
       IN Ahead(g, nst, hasprev, inx, X1, X2, X3, X5, wf, wn, k + 1)
RECURSIVE Consider(_, _, _, _, _, _, _, _, _)
Consider(g, st, hasprev, inx1, X0, X1, X2, w, m) ==
  IF m > Len(w) THEN st
  ELSE LET X3 == st.f2.x[w[m][1] + 1]
           inx == inx1 \/ w[m][1] >= st.f2.old
           X5 == IF hasprev THEN LET v == Add(Sub(Mul(5, X3), Mul(4, X1)), X0) IN <<v[1] \div 2, v[2] \div 2, v[3] \div 2>>
                 ELSE Sub(Mul(2, X3), X1)
           C3 == Cands(g, st.f3, [c \in DOMAIN g.cams |-> Proj(g, c, X5)], X5)
           s1 == Ahead(g, [st EXCEPT !.amb = @ \/ C3.amb], hasprev, inx, X1, X2, X3, X5, w[m], C3.w, 1)
           np == NewPoint(g, s1.f3, X5)
           acc == Acc(X3, np.x, X5) ang == Ang(X3, np.x, X5)
           good == np.n >= 2 /\ InDepth(g, np.x) /\ InBounds(g, Sub(np.x, X3))
           soft == Soft(TRUE, X3, np.x, np.x) \/ Soft(inx, X3, np.x, X5)
           ok == IF good THEN AllowedIf(g, soft, acc, ang) ELSE "n"
           s2 == IF np.amb THEN [s1 EXCEPT !.amb = TRUE]
                 ELSE LET r == Rate(g, s1, (Dist(X1, X3) + Dist(np.x, X3)) \div 2, acc, AngIf(soft, ang), np.n + w[m][2], w[m][1], ok)
                      IN IF ok = "y" /\ g.add = 1 THEN [r EXCEPT !.f3 = AddTo(@, np)] ELSE r
           s3 == IF s2.c = <<>> /\ hasprev /\ InBounds(g, Sub(X3, X1))
                 THEN LET a == Acc(X1, X2, X3) b == Ang(X1, X2, X3) e == Soft(inx, X1, X2, X3)
                      IN Rate(g, s2, (Dist(X1, X3) + Dist(X0, X1)) \div 2, a, AngIf(e, b), w[m][2], w[m][1], AllowedIf(g, e, a, b))
                 ELSE s2
       IN Consider(g, s3, hasprev, inx1, X0, X1, X2, w, m + 1)
ForParticle(g, f0, f1, h, st0) ==
  LET st == [st0 EXCEPT !.c = <<>>]
      X1 == f1.x[h]
      hasprev == f1.prev[h] >= 0
      X0 == IF hasprev THEN f0.x[f1.prev[h] + 1] ELSE X1
      inx == h > f1.old \/ f1.prev[h] >= f0.old
      X2 == IF hasprev THEN Sub(Mul(2, X1), X0) ELSE X1
      pr == [c \in DOMAIN g.cams |-> IF hasprev \/ f1.corr[h][c] = -1 THEN Proj(g, c, X2)
                                     ELSE LET t == f1.tg[c][f1.corr[h][c] + 1] IN <<t[1], t[2]>>]
      W == Cands(g, st.f2, pr, X2)
      \* the order of the candidates matters only for the continuation without look-ahead, and when particles are added
      direct(m) == LET X3 == st.f2.x[W.w[m][1] + 1] IN
                   InBounds(g, Sub(X3, X1)) /\ AllowedIf(g, Soft(inx \/ W.w[m][1] >= st.f2.old, X1, X2, X3), Acc(X1, X2, X3), Ang(X1, X2, X3)) # "n"
      tied == W.tie /\ Len(W.w) > 1 /\ (g.add = 1 \/ (hasprev /\ \E m \in DOMAIN W.w : direct(m)))
      s1 == Consider(g, [st EXCEPT !.amb = @ \/ W.amb \/ tied], hasprev, inx, X0, X1, X2, W.w, 1)
      np == NewPoint(g, s1.f2, X2)
      good == np.n >= 2 /\ InDepth(g, np.x) /\ InBounds(g, Sub(np.x, X1))
      soft == Soft(TRUE, X1, np.x, np.x) \/ Soft(inx, X1, X2, np.x)
      ok == IF good THEN AllowedIf(g, soft, Acc(X1, X2, np.x), Ang(X1, X2, np.x)) ELSE "n"
  IN IF W.w = <<>> \/ g.add = 0 \/ s1.c # <<>> \/ ~hasprev THEN s1
     ELSE IF np.amb THEN [s1 EXCEPT !.amb = TRUE]
     ELSE LET r == Rate(g, s1, (Dist(X1, np.x) + Dist(X0, X1)) \div 2, Acc(X1, X2, np.x), AngIf(soft, Ang(X1, X2, np.x)), np.n, Len(s1.f2.x), ok)
          IN IF ok = "y" THEN [r EXCEPT !.f2 = AddTo(@, np)] ELSE r
RECURSIVE Forward(_, _, _, _, _)
\* result: [f2, f3, all: per particle its candidates, amb]
Forward(g, f0, f1, h, st) ==
  IF h > Len(f1.x) THEN st
  ELSE LET r == ForParticle(g, f0, f1, h, st) IN Forward(g, f0, f1, h + 1, [r EXCEPT !.all = Append(@, r.c)])
ForwardStep(g, f0, f1, f2, f3) == Forward(g, f0, f1, 1, [f2 |-> f2, f3 |-> f3, c |-> <<>>, amb |-> FALSE, all |-> <<>>])

\* ---------------------------------------------------------------- which links may result
Best(c) == CHOOSE v \in {c[k][1] : k \in DOMAIN c} : \A k \in DOMAIN c : v <= c[k][1]
Choice(c) == {c[k][2] : k \in {k \in DOMAIN c : c[k][1] <= Best(c) + Eps}}
\* next[h] (0-based or -2) for every particle, given everyone's candidates
LinkOk(all, next, h) ==
  IF all[h] = <<>> THEN next[h] = -2
  ELSE IF next[h] # -2 THEN next[h] \in Choice(all[h])
  ELSE \E p \in Choice(all[h]), k \in DOMAIN all : k # h /\ next[k] = p /\ all[k] # <<>> /\ Best(all[k]) <= Best(all[h]) + Eps
LinksOk(all, next) == Len(next) = Len(all) /\ \A h \in DOMAIN all : LinkOk(all, next, h)

\* ---------------------------------------------------------------- a backward step
\* b0, b1, b2: frames step+1, step, step-1; next1: successors of b1's particles
RECURSIVE BackRate(_, _, _, _, _, _, _, _)
BackRate(g, st, inx, X0, X1, X2, w, k) ==
  IF k > Len(w) THEN st
  ELSE LET X3 == st.f2.x[w[k][1] + 1]
           a == Acc(X1, X2, X3) b == Ang(X1, X2, X3) e == Soft(inx \/ w[k][1] >= st.f2.old, X1, X2, X3)
       IN BackRate(g, IF InBounds(g, Sub(X1, X3))
                      THEN Rate(g, st, (Dist(X1, X3) + Dist(X0, X1)) \div 2, a, AngIf(e, b), w[k][2], w[k][1], AllowedIf(g, e, a, b)) ELSE st,
                   inx, X0, X1, X2, w, k + 1)
BackParticle(g, b0, b1, next1, h, st0) ==
  LET X0 == b0.x[next1[h] + 1] X1 == b1.x[h] X2 == Sub(Mul(2, X1), X0)
      W == Cands(g, st0.f2, [c \in DOMAIN g.cams |-> Proj(g, c, X2)], X2)
      inx == h > b1.old \/ next1[h] >= b0.old
      s1 == BackRate(g, [st0 EXCEPT !.c = <<>>, !.amb = @ \/ W.amb], inx, X0, X1, X2, W.w, 1)
      \* nobody there: a particle made of unclaimed targets
      np == NewPoint(g, s1.f2, X2)
      good == np.n >= 2 /\ InDepth(g, np.x) /\ InBounds(g, Sub(X1, np.x))
      soft == Soft(TRUE, X1, np.x, np.x) \/ Soft(inx, X1, X2, np.x)
      ok == IF good THEN AllowedIf(g, soft, Acc(X1, X2, np.x), Ang(X1, X2, np.x)) ELSE "n"
  IN IF g.add = 0 \/ s1.c # <<>> \/ s1.amb THEN s1
     ELSE IF np.amb THEN [s1 EXCEPT !.amb = TRUE]
     ELSE LET r == Rate(g, s1, (Dist(X1, np.x) + Dist(X0, X1)) \div 2, Acc(X1, X2, np.x), AngIf(soft, Ang(X1, X2, np.x)), np.n, Len(s1.f2.x), ok)
          IN IF ok = "y" THEN [r EXCEPT !.f2 = AddTo(@, np)] ELSE r
RECURSIVE Backward(_, _, _, _, _, _)
\* result: [f2, all: per particle its candidates, amb]; open: the particles that look for a predecessor
Backward(g, b0, b1, next1, h, st) ==
  IF h > Len(b1.x) THEN st
  ELSE LET open == next1[h] >= 0 /\ b1.prev[h] = -1
           r == IF open THEN BackParticle(g, b0, b1, next1, h, st) ELSE [st EXCEPT !.c = <<>>]
       IN Backward(g, b0, b1, next1, h + 1, [r EXCEPT !.all = Append(@, r.c)])
BackwardStep(g, b0, b1, b2, next1) == Backward(g, b0, b1, next1, 1, [f2 |-> b2, c |-> <<>>, amb |-> FALSE, all |-> <<>>])
\* may particle h join p, whose own predecessor is at X4?
Joins(g, inx, X0, X1, X3, X4) ==
  LET v == Add(Sub(Mul(5, X3), Mul(4, X1)), X0)
      X5 == <<v[1] \div 2, v[2] \div 2, v[3] \div 2>>
  IN AllowedIf(g, Soft(inx, X3, X4, X5), Acc(X3, X4, X5), Ang(X3, X4, X5))
=============================================================================
