------------------------------ MODULE Bindings ------------------------------
(* The object rules of Objects.tla on a small program: two records, a view, a *)
(* copy and a part of a record.  Checked: an operation on one handle shows in *)
(* another only if they share cells; a view shows what its record shows; a    *)
(* copy shows what was copied; rejected operations show nothing.              *)
EXTENDS Objects
CONSTANTS Vals, Depth
VARIABLES s, touched, n
vars == <<s, touched, n>>
Rec(x, y, z) == <<[a |-> "x", v |-> <<x>>], [a |-> "y", v |-> <<y, z>>]>>
Init == s = New(New(Empty, "o1", Rec(0, 0, 0)), "o2", Rec(0, 0, 0)) /\ touched = {} /\ n = 0
Has(h) == h \in DOMAIN s.hs
Cells(h) == UNION {{s.hs[h][a][i] : i \in DOMAIN s.hs[h][a]} : a \in DOMAIN s.hs[h]}
Go(t, c) == s' = t /\ touched' = c /\ n' = n + 1
Of(q) == {q[i] : i \in DOMAIN q}
Step == n < Depth /\
    \/ \E h \in {"o1", "o2"} : Has(h) /\
        \/ \E v \in Vals : Go(Set(s, h, "x", <<v>>), Of(s.hs[h]["x"]))
        \/ \E v, w \in Vals : Go(Set(s, h, "y", <<v, w>>), Of(s.hs[h]["y"]))
        \/ \E v \in Vals : Go(Set(s, h, "y", <<v>>), Of(s.hs[h]["y"]))
        \/ \E v, w \in Vals : Go(Load(s, h, Rec(v, w, v)), Cells(h))
        \/ Go(s, {})
        \/ ~Has("v") /\ Go(View(s, "v", h, "y"), {})
        \/ ~Has("c") /\ Go(Copy(s, "c", h, "y"), {})
        \/ \E k \in {"o1", "o2"} \ {h} : Has(k) /\ Go(Cloned(s, k, h), Cells(k))
        \/ Go([s EXCEPT !.hs = Drop(s.hs, h)], {})
    \/ \E h \in {"v", "c"} : Has(h) /\ \E x \in Vals : Go(Set(s, h, "v", <<x>>), Of(s.hs[h]["v"]))
Spec == Init /\ [][Step]_vars
\* nothing changes but what shares cells with what was operated on
Isolated == [][\A h \in DOMAIN s.hs \cap DOMAIN s'.hs : \A a \in DOMAIN s.hs[h] :
                  (Of(s.hs[h][a]) \cap touched' = {}) => [i \in DOMAIN s.hs[h][a] |-> s'.heap[s'.hs[h][a][i]]] = Show(s, h, a)]_vars
ViewShares == \A h \in {"o1", "o2"} : (Has(h) /\ Has("v") /\ Of(s.hs["v"]["v"]) \cap Cells(h) # {}) => Show(s, "v", "v") = Show(s, h, "y")
Separate == (Has("o1") /\ Has("o2") => Cells("o1") \cap Cells("o2") = {}) /\ (Has("c") => \A h \in DOMAIN s.hs \ {"c"} : Cells("c") \cap Cells(h) = {})
=============================================================================
