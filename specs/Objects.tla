------------------------------ MODULE Objects ------------------------------
(* What a Python program may observe of the objects of the bindings.          *)
(*                                                                            *)
(* A state has a heap of cells, each holding one number, and the handles of   *)
(* the program (objects, array views, copies, single targets).  A handle has  *)
(* named accessors, each a sequence of cells.  An accessor shows exactly what *)
(* was last stored in its cells; two accessors share cells only where the     *)
(* interface promises it: views and their object, a ControlParams and its     *)
(* multimedia parameters, a Target and the array it was taken from.  Handles  *)
(* never lose their cells, whatever happens to the others.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Empty == [heap |-> <<>>, hs |-> <<>>]
Show(s, h, a) == [i \in DOMAIN s.hs[h][a] |-> s.heap[s.hs[h][a][i]]]
Put(heap, cells, vals) == [c \in DOMAIN heap |-> IF \E i \in DOMAIN vals : cells[i] = c THEN vals[CHOOSE i \in DOMAIN vals : cells[i] = c] ELSE heap[c]]
Bind(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
\* store named values: into the accessor's cells where it has as many, into new ones otherwise
RECURSIVE Store(_, _, _, _)
Store(heap, old, pairs, acc) ==
    IF pairs = <<>> THEN [heap |-> heap, acc |-> acc]
    ELSE LET p == Head(pairs)
             cells == IF p.a \in DOMAIN old THEN old[p.a] ELSE <<>>
         IN IF Len(cells) = Len(p.v) /\ p.v # <<>> THEN Store(Put(heap, cells, p.v), old, Tail(pairs), Bind(acc, p.a, cells))
            ELSE Store(heap \o p.v, old, Tail(pairs), Bind(acc, p.a, [i \in DOMAIN p.v |-> Len(heap) + i]))
New(s, h, pairs) == LET r == Store(s.heap, <<>>, pairs, <<>>) IN [heap |-> r.heap, hs |-> Bind(s.hs, h, r.acc)]
\* reading a file replaces everything the object holds
Load(s, h, pairs) == LET r == Store(s.heap, s.hs[h], pairs, <<>>) IN [heap |-> r.heap, hs |-> Bind(s.hs, h, r.acc)]
Set(s, h, a, v) == [s EXCEPT !.heap = Put(s.heap, s.hs[h][a], v)]
Layers(s, h, n, d) == Set(Set(Set(s, h, "n2", n), h, "d", d), h, "nlay", <<Len(n)>>)
View(s, h2, h, a) == [s EXCEPT !.hs = Bind(s.hs, h2, [x \in {"v"} |-> s.hs[h][a]])]
Copy(s, h2, h, a) == New(s, h2, <<[a |-> "v", v |-> Show(s, h, a)]>>)
Sub(s, h2, h, pre, names) == [s EXCEPT !.hs = Bind(s.hs, h2, [x \in names |-> s.hs[h][pre \o x]])]
MediaNames == {"n1", "n3", "nlay", "n2", "d"}
Media(s, h2, h) == Sub(s, h2, h, "mm.", MediaNames)
TargetNames == {"pnr", "tnr", "pos", "count", "sumg"}
Dig == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Item(s, h2, h, i) == Sub(s, h2, h, Dig[i + 1] \o ".", TargetNames)
Size(s, h) == Cardinality(DOMAIN s.hs[h]) \div Cardinality(TargetNames)
\* sorting an array of targets: ascending y (all different here), renumbered
RECURSIVE PutAll(_, _, _)
PutAll(heap, acc, w) == IF w = <<>> THEN heap ELSE PutAll(Put(heap, acc[Head(w).a], Head(w).v), acc, Tail(w))
Sorted(s, h) ==
    LET n == Size(s, h)
        y(i) == Show(s, h, Dig[i] \o ".pos")[2]
        from(k) == CHOOSE i \in 1..n : Cardinality({j \in 1..n : y(j) < y(i)}) = k - 1
        w(nm) == [k \in 1..n |-> [a |-> Dig[k] \o "." \o nm, v |-> IF nm = "pnr" THEN <<k - 1>> ELSE Show(s, h, Dig[from(k)] \o "." \o nm)]]
    IN [s EXCEPT !.heap = PutAll(s.heap, s.hs[h], w("pnr") \o w("tnr") \o w("pos") \o w("count") \o w("sumg"))]
\* what a handle's accessors show, copied to a new object (through a file)
Cloned(s, h2, h) == LET names == DOMAIN s.hs[h]
                        RECURSIVE seq(_)
                        seq(S) == IF S = {} THEN <<>> ELSE LET a == CHOOSE a \in S : TRUE IN <<[a |-> a, v |-> Show(s, h, a)]>> \o seq(S \ {a})
                    IN IF h2 \in DOMAIN s.hs THEN Load(s, h2, seq(names)) ELSE New(s, h2, seq(names))
=============================================================================
