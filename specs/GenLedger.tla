------------------------------ MODULE GenLedger ------------------------------
(* Histories of calls on objects, each call asked to succeed or to fail;       *)
(* whatever is left in being at the end is released by the driver.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Objs, Depth
VARIABLES hist, being
Init == hist = <<>> /\ being = {}
Step(op, o, ok) == /\ hist' = Append(hist, <<op, o, ok>>)
                   /\ being' = IF op = "drop" THEN being \ {o} ELSE IF op = "make" /\ ok = 1 THEN being \cup {o} ELSE being
Next == /\ Len(hist) < Depth
        /\ \E o \in Objs :
             \/ o \notin being /\ \E ok \in {0, 1} : Step("make", o, ok)
             \/ o \in being /\ (Step("drop", o, 1) \/ \E op \in {"use", "refill"}, ok \in {0, 1} : Step(op, o, ok))
Spec == Init /\ [][Next]_<<hist, being>>
\* objects are taken up in order: the others are the same with the names exchanged
Canon == \A i \in 1..Len(hist) : hist[i][2] = 2 => \E j \in 1..i : hist[j][2] = 1
Emit == (Len(hist) = Depth /\ Canon) => PrintT("GEN " \o ToJson(hist))
=============================================================================
