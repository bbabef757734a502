----------------------------- MODULE GenBindings -----------------------------
(* Enumerates the histories of operations on the objects of one class.        *)
(* `r` picks among accessors, cells or indices; the check turns it into one.  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Loads, Views, Medias, Items, Files, Depth
VARIABLES live, hist
vars == <<live, hist>>
Init == live = {"o1"} /\ hist = <<>>
Do(op, h, h2, r) == /\ hist' = Append(hist, [op |-> op, h |-> h, h2 |-> h2, r |-> r])
                    /\ live' = IF op = "drop" THEN live \ {h} ELSE IF h2 = "" THEN live ELSE live \cup {h2}
Objs == live \cap {"o1", "o2"}
Step == Len(hist) < Depth /\
    \/ "o2" \notin live /\ Do("new", "o2", "o2", 1)
    \/ \E h \in Objs : \/ \E r \in 1..2 : Do("set", h, "", r) \/ Do("bad", h, "", r)
                       \/ Loads /\ (Do("load", h, "", 1) \/ Do("loadbad", h, "", 1))
                       \/ Views /\ \E v \in {"v1", "v2"} \ live : Do("view", h, v, 1)
                       \/ Views /\ "c1" \notin live /\ Do("copy", h, "c1", 1)
                       \/ Medias /\ \E m \in {"m1", "m2"} \ live : Do("media", h, m, 1)
                       \/ Items /\ (Do("sort", h, "", 1) \/ \E t \in {"t1", "t2"} \ live : Do("item", h, t, 1))
                       \/ Files /\ \E k \in {"o1", "o2"} \ {h} : Do("via", h, k, 1)
    \/ \E h \in live \cap {"v1", "v2", "c1"} : Do("poke", h, "", 1)
    \/ \E h \in live \cap {"t1", "t2"} : \E r \in 1..2 : Do("set", h, "", r)
    \/ \E h \in live \cap {"m1", "m2"} : \/ Do("set", h, "", 1) \/ Do("layers", h, "", 1) \/ Do("badlayers", h, "", 1)
                                         \/ \E v \in {"v1", "v2"} \ live : Do("view", h, v, 1)
    \/ \E h \in live : Cardinality(live) > 1 /\ Do("drop", h, "", 1)
Spec == Init /\ [][Step]_vars
Emit == IF Len(hist) = Depth THEN PrintT("GEN " \o ToJson(hist)) ELSE TRUE
=============================================================================
