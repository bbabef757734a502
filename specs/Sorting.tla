------------------------------ MODULE Sorting ------------------------------
(* Sorting in place by exchange: the quicksort the library uses for targets, *)
(* coordinates and candidate groups, as a state machine over a stack of      *)
(* ranges still to be sorted.  An item is <<key, identity>>.                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS MaxLen, Keys
VARIABLES in, a, stack, pc, i, j, piv
vars == <<in, a, stack, pc, i, j, piv>>

\* ---- what every sorting routine owes its caller
SameItems(x, y) == /\ Len(x) = Len(y)
                   /\ \A e \in {x[k] : k \in DOMAIN x} \cup {y[k] : k \in DOMAIN y} :
                        Cardinality({k \in DOMAIN x : x[k] = e}) = Cardinality({k \in DOMAIN y : y[k] = e})
Ascending(x) == \A k \in 1..Len(x) - 1 : x[k][1] <= x[k + 1][1]
Descending(x) == \A k \in 1..Len(x) - 1 : x[k][1] >= x[k + 1][1]

\* ---- the algorithm
Init == /\ \E n \in 0..MaxLen : \E k \in [1..n -> Keys] : in = [m \in 1..n |-> <<k[m], m>>]
        /\ a = in /\ i = 0 /\ j = 0 /\ piv = 0
        /\ stack = IF Len(in) > 0 THEN << <<1, Len(in)>> >> ELSE <<>>
        /\ pc = "pop"
Top == stack[Len(stack)]
Below == SubSeq(stack, 1, Len(stack) - 1)
Pop == /\ pc = "pop" /\ stack # <<>>
       /\ i' = Top[1] /\ j' = Top[2] /\ piv' = a[(Top[1] - 1 + Top[2] - 1) \div 2 + 1][1]
       /\ pc' = "i" /\ UNCHANGED <<in, a, stack>>
ScanI == /\ pc = "i"
         /\ IF a[i][1] < piv /\ i < Top[2] THEN i' = i + 1 /\ UNCHANGED pc ELSE pc' = "j" /\ UNCHANGED i
         /\ UNCHANGED <<in, a, stack, j, piv>>
ScanJ == /\ pc = "j"
         /\ IF piv < a[j][1] /\ j > Top[1] THEN j' = j - 1 /\ UNCHANGED pc ELSE pc' = "swap" /\ UNCHANGED j
         /\ UNCHANGED <<in, a, stack, i, piv>>
Swap == /\ pc = "swap"
        /\ IF i <= j
             THEN /\ a' = [a EXCEPT ![i] = a[j], ![j] = a[i]] /\ i' = i + 1 /\ j' = j - 1
                  /\ pc' = IF i + 1 <= j - 1 THEN "i" ELSE "push"
             ELSE pc' = "push" /\ UNCHANGED <<a, i, j>>
        /\ UNCHANGED <<in, stack, piv>>
Push == /\ pc = "push"
        /\ stack' = Below \o (IF i < Top[2] THEN << <<i, Top[2]>> >> ELSE <<>>)
                          \o (IF Top[1] < j THEN << <<Top[1], j>> >> ELSE <<>>)
        /\ pc' = "pop" /\ UNCHANGED <<in, a, i, j, piv>>
Next == Pop \/ ScanI \/ ScanJ \/ Swap \/ Push
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InBounds == pc \in {"i", "j"} => i \in 1..Len(in) /\ j \in 1..Len(in)
Preserved == SameItems(in, a)
Done == pc = "pop" /\ stack = <<>>
SortedAtEnd == Done => Ascending(a)
Terminates == <>Done
=============================================================================
