------------------------------ MODULE RecordEq ------------------------------
(* Comparing two records of one type, field by field, stopping at the first   *)
(* difference.  `diff` is the set of fields in which the second record has    *)
(* been changed.  Whatever the order of the fields, the verdict is "equal"    *)
(* exactly when nothing was changed, and the same from either side.           *)
EXTENDS RecordTypes, FiniteSets, TLC, Json
CONSTANT PairSpan
VARIABLES type, diff, next, verdict
vars == <<type, diff, next, verdict>>
F == Types[type]
Init == /\ type \in DOMAIN Types
        /\ \/ diff = {}
           \/ \E i \in 1..Len(F) : \E j \in i..(IF i + PairSpan > Len(F) THEN Len(F) ELSE i + PairSpan) : diff = {F[i], F[j]}
        /\ next = 1 /\ verdict = "open"
Differ(f) == f \in diff
Step == /\ verdict = "open"
        /\ IF next > Len(F) THEN verdict' = "equal" /\ UNCHANGED next
           ELSE IF Differ(F[next]) THEN verdict' = "different" /\ UNCHANGED next
           ELSE next' = next + 1 /\ UNCHANGED verdict
        /\ UNCHANGED <<type, diff>>
Spec == Init /\ [][Step]_vars /\ WF_vars(Step)
Right == verdict # "open" => (verdict = "equal") = (diff = {})
Decides == <>(verdict # "open")
Emit == IF next = 1 /\ verdict = "open" THEN PrintT("GEN " \o ToJson([type |-> type, diff |-> diff])) ELSE TRUE
=============================================================================
