------------------------------- MODULE Chain -------------------------------
(* What the whole chain does with particles far apart from one another:       *)
(* pictures -> targets -> groups of targets -> points -> links.               *)
(* No stage knows particles. Each keeps its own promise, and may number what  *)
(* it finds as it likes:                                                      *)
(*   targets  one per particle seen by the camera, at its picture             *)
(*   groups   one per particle, of the targets at its pictures                *)
(*   links    from a point to the one its particle is at in the next frame    *)
(* The rules below compose the references again, and Recovered says that what *)
(* comes out names every particle and its path, whatever the numbering.       *)
EXTENDS Integers, Sequences, FiniteSets
\* ---- rules, over what is known of the scene and what came out
\* truth: [frame -> set of particles], sees(f, k, c): camera c sees k at f
Orders(S) == {s \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}
\* the position of e in the numbering s, from 0, -1 if it is not there
Num(s, e) == IF \E i \in DOMAIN s : s[i] = e THEN (CHOOSE i \in DOMAIN s : s[i] = e) - 1 ELSE -1
\* the references a point of k has into the targets (numbered tg[c]) of every camera
Refs(tg, k) == [c \in DOMAIN tg |-> Num(tg[c], k)]
\* the point a target belongs to
Owner(points, k) == Num(points, k)
\* the links: points are numbered pts[f] in frame f
NextOf(pts, f, k) == IF f + 1 \in DOMAIN pts /\ Num(pts[f + 1], k) >= 0 THEN Num(pts[f + 1], k) ELSE -2
PrevOf(pts, f, k) == IF f - 1 \in DOMAIN pts /\ Num(pts[f - 1], k) >= 0 THEN Num(pts[f - 1], k) ELSE -1
=============================================================================
