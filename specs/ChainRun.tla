------------------------------ MODULE ChainRun ------------------------------
(* The chain of Chain.tla run stage by stage on every small scene, with every *)
(* numbering at every stage.                                                  *)
EXTENDS Chain, TLC
CONSTANTS Particles, Cams, Frames
VARIABLES there, blind, lost, tg, pts, refs, own, next, prev, stage
vars == <<there, blind, lost, tg, pts, refs, own, next, prev, stage>>
F == 1..Frames
C == 1..Cams
Sees(f, k, c) == k \in there[f] /\ <<f, k, c>> \notin blind
Init == /\ there \in [F -> SUBSET Particles \ {{}}]
        \* a camera may miss one particle once
        /\ blind \in {{}} \cup {{<<f, k, d>>} : f \in F, k \in Particles, d \in C}
        /\ lost = {} /\ tg = <<>> /\ pts = <<>> /\ refs = <<>> /\ own = <<>> /\ next = <<>> /\ prev = <<>> /\ stage = "see"
See == /\ stage = "see" /\ stage' = "group"
       /\ tg' \in {t \in [F -> [C -> UNION {Orders(S) : S \in SUBSET Particles}]] :
                     \A f \in F, d \in C : t[f][d] \in Orders({k \in Particles : Sees(f, k, d)})}
       /\ UNCHANGED <<there, blind, lost, pts, refs, own, next, prev>>
\* a group is found through its targets: those at the pictures of one particle. One may be lost again,
\* of a particle there in the frame before
Losses == {{}} \cup {{<<f, k>>} : f \in {g \in F : g > 1}, k \in Particles}
References(p) == /\ refs' = [f \in F |-> [i \in DOMAIN p[f] |-> Refs(tg[f], p[f][i])]]
                 /\ own' = [f \in F |-> [c \in C |-> [i \in DOMAIN tg[f][c] |-> Owner(p[f], tg[f][c][i])]]]
Group == /\ stage = "group" /\ stage' = "link"
         /\ lost' \in {x \in Losses : \A e \in x : e[2] \in there[e[1]] \cap there[e[1] - 1]}
         /\ pts' \in {p \in [F -> UNION {Orders(S) : S \in SUBSET Particles}] :
                        \A f \in F : p[f] \in Orders({k \in there[f] : <<f, k>> \notin lost'})}
         /\ References(pts')
         /\ UNCHANGED <<there, blind, tg, next, prev>>
\* tracking adds what was lost after the points there are, from the targets that belong to no point, and links all
Link == /\ stage = "link" /\ stage' = "done"
        /\ pts' = [f \in F |-> IF \E k \in Particles : <<f, k>> \in lost THEN Append(pts[f], CHOOSE k \in Particles : <<f, k>> \in lost) ELSE pts[f]]
        /\ References(pts')
        /\ next' = [f \in F |-> [i \in DOMAIN pts'[f] |-> NextOf(pts', f, pts'[f][i])]]
        /\ prev' = [f \in F |-> [i \in DOMAIN pts'[f] |-> PrevOf(pts', f, pts'[f][i])]]
        /\ UNCHANGED <<there, blind, lost, tg>>
Next == See \/ Group \/ Link
Spec == Init /\ [][Next]_vars

\* ---- what a user reads from the result, without knowing the numberings
\* the particle a point shows, by its targets
Shown(f, i) == {tg[f][c][refs[f][i][c] + 1] : c \in {d \in C : refs[f][i][d] >= 0}}
\* between the stages, the targets that belong to no point are those of what was lost
Free == stage = "link" => \A f \in F, c \in C : {tg[f][c][j] : j \in {i \in DOMAIN tg[f][c] : own[f][c][i] = -1}} = {k \in Particles : <<f, k>> \in lost /\ Sees(f, k, c)}
Recovered == stage = "done" =>
  /\ \A f \in F : /\ \A i \in DOMAIN pts[f] : Cardinality(Shown(f, i)) = 1
                  /\ UNION {Shown(f, i) : i \in DOMAIN pts[f]} = there[f]
                  /\ \A i \in DOMAIN pts[f], c \in C : (refs[f][i][c] >= 0) <=> \A k \in Shown(f, i) : Sees(f, k, c)
                  \* targets and points name one another
                  /\ \A c \in C : \A j \in DOMAIN tg[f][c] : own[f][c][j] >= 0 /\ refs[f][own[f][c][j] + 1][c] = j - 1
  \* links join what shows the same particle, both ways, and none is left out
  /\ \A f \in F, i \in 1..Cardinality(Particles) : i \in DOMAIN pts[f] =>
       /\ next[f][i] >= 0 => Shown(f + 1, next[f][i] + 1) = Shown(f, i) /\ prev[f + 1][next[f][i] + 1] = i - 1
       /\ prev[f][i] >= 0 => next[f - 1][prev[f][i] + 1] = i - 1
       /\ (f < Frames /\ Shown(f, i) \subseteq there[f + 1]) => next[f][i] >= 0
=============================================================================
