----------------------------- MODULE Correspond -----------------------------
(* Multi-camera correspondences as greedy set packing.                      *)
(*                                                                          *)
(* A relation W says which targets of two cameras may show the same         *)
(* particle: W[c1][c2] (c1 < c2) is a sequence over the targets of c1, each  *)
(* a sequence of <<target of c2, corr, dist>>.  Groups of four, then three,  *)
(* then two targets are packed, best rating first, no target twice.          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

\* edge data, or <<0,0>> when not related (targets are numbered from 1 here, from 0 in the lists)
EdgeOf(W, c1, c2, i, p) ==
  LET s == {e \in {W[c1][c2][i][k] : k \in DOMAIN W[c1][c2][i]} : e[1] = p - 1}
  IN IF s = {} THEN <<0, 0>> ELSE LET e == CHOOSE x \in s : TRUE IN <<e[2], e[3]>>
Nbrs(W, c1, c2, i) == {W[c1][c2][i][k][1] + 1 : k \in DOMAIN W[c1][c2][i]}

\* a group: function from its cameras to targets
Pairs(g) == {<<a, b>> \in (DOMAIN g) \X (DOMAIN g) : a < b}
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})
Num(W, g) == SumOver([e \in Pairs(g) |-> EdgeOf(W, e[1], e[2], g[e[1]], g[e[2]])[1]], Pairs(g))
Den(W, g) == SumOver([e \in Pairs(g) |-> EdgeOf(W, e[1], e[2], g[e[1]], g[e[2]])[2]], Pairs(g))
Connected(W, g) == \A e \in Pairs(g) : g[e[2]] \in Nbrs(W, e[1], e[2], g[e[1]])

\* all mutually connected groups over the camera set C (by extending one camera at a time)
RECURSIVE Cliques(_, _, _)
Cliques(W, n, C) ==
  IF C = {} THEN {<<>>}
  ELSE LET last == CHOOSE c \in C : \A d \in C : d <= c
           rest == C \ {last}
       IN IF rest = {} THEN {[c \in {last} |-> t] : t \in 1..n[last]}
          ELSE LET first == CHOOSE c \in rest : \A d \in rest : c <= d
               IN UNION {{[c \in C |-> IF c = last THEN t ELSE g[c]] :
                            t \in {u \in Nbrs(W, first, last, g[first]) :
                                     \A c \in rest : u \in Nbrs(W, c, last, g[c])}} : g \in Cliques(W, n, rest)}
Unambiguous(W, g) == LET c1 == CHOOSE c \in DOMAIN g : \A d \in DOMAIN g : c <= d
                         c2 == CHOOSE c \in DOMAIN g : c # c1
                     IN Len(W[c1][c2][g[c1]]) = 1
\* threshold accept = a / 4
Rated(W, g, a) == 4 * Num(W, g) > a * Den(W, g)
CamSets(m, k) == {C \in SUBSET (1..m) : Cardinality(C) = k}
Groups(W, n, m, a, k) ==
  {g \in UNION {Cliques(W, n, C) : C \in CamSets(m, k)} : Rated(W, g, a) /\ (k = 2 => Unambiguous(W, g))}

\* which sizes are sought, largest first
Sizes(m, allOnly) == (IF m = 4 THEN <<4>> ELSE <<>>)
                     \o (IF (m = 4 /\ ~allOnly) \/ m = 3 THEN <<3>> ELSE <<>>)
                     \o (IF m > 1 /\ ~allOnly THEN <<2>> ELSE <<>>)

Share(g, h) == \E c \in DOMAIN g \cap DOMAIN h : g[c] = h[c]
Better(W, g, h) == Num(W, g) * Den(W, h) > Num(W, h) * Den(W, g)

\* what a finished table (sequence of groups) must satisfy
Disjoint(tab) == \A i, j \in DOMAIN tab : i # j => ~Share(tab[i], tab[j])
Legal(W, n, m, a, allOnly, tab) ==
  /\ \A i \in DOMAIN tab : LET k == Cardinality(DOMAIN tab[i])
                           IN /\ \E s \in DOMAIN Sizes(m, allOnly) : Sizes(m, allOnly)[s] = k
                              /\ Connected(W, tab[i]) /\ Rated(W, tab[i], a)
                              /\ k = 2 => Unambiguous(W, tab[i])
LargestFirst(tab) == \A i \in 1..Len(tab) - 1 : Cardinality(DOMAIN tab[i]) >= Cardinality(DOMAIN tab[i + 1])
BestFirst(W, tab) == \A i \in 1..Len(tab) - 1 :
                       Cardinality(DOMAIN tab[i]) = Cardinality(DOMAIN tab[i + 1]) => ~Better(W, tab[i + 1], tab[i])
\* every group left out collides with one that is larger, or as large and rated no worse
Excused(W, tab, g) == \E i \in DOMAIN tab : /\ Share(tab[i], g)
                                            /\ \/ Cardinality(DOMAIN tab[i]) > Cardinality(DOMAIN g)
                                               \/ Cardinality(DOMAIN tab[i]) = Cardinality(DOMAIN g) /\ ~Better(W, g, tab[i])
Complete(W, n, m, a, allOnly, tab) ==
  \A s \in DOMAIN Sizes(m, allOnly) :
    \A g \in Groups(W, n, m, a, Sizes(m, allOnly)[s]) :
      (\E i \in DOMAIN tab : tab[i] = g) \/ Excused(W, tab, g)

\* ---- the packing process
CONSTANTS NCams, Counts, Marks, Accept
VARIABLES rel, all, table, stage, used
vars == <<rel, all, table, stage, used>>
Related == {<<c1, c2, i, p>> \in (1..NCams) \X (1..NCams) \X (1..3) \X (1..3) : c1 < c2 /\ i <= Counts[c1] /\ p <= Counts[c2]}
\* marks: 0 = not related, else corr (dist 1)
RECURSIVE ListFrom(_, _, _, _, _)
ListFrom(f, c1, c2, i, p) == IF p > Counts[c2] THEN <<>>
  ELSE (IF f[<<c1, c2, i, p>>] = 0 THEN <<>> ELSE << <<p - 1, f[<<c1, c2, i, p>>], 1>> >>) \o ListFrom(f, c1, c2, i, p + 1)
RelOf(f) == [c1 \in 1..NCams |-> [c2 \in 1..NCams |-> IF c1 < c2 THEN [i \in 1..Counts[c1] |-> ListFrom(f, c1, c2, i, 1)] ELSE <<>>]]

Init == /\ \E f \in [Related -> Marks] : rel = RelOf(f)
        /\ all \in BOOLEAN
        /\ table = <<>> /\ stage = 1 /\ used = {}
Targets(g) == {<<c, g[c]>> : c \in DOMAIN g}
Open == {g \in Groups(rel, Counts, NCams, Accept, Sizes(NCams, all)[stage]) : Targets(g) \cap used = {}}
Take == /\ stage <= Len(Sizes(NCams, all))
        /\ LET O == Open
               B == {g \in O : \A h \in O : ~Better(rel, h, g)}
           IN IF O = {} THEN stage' = stage + 1 /\ UNCHANGED <<table, used>>
              ELSE \E g \in B : table' = Append(table, g) /\ used' = used \cup Targets(g) /\ UNCHANGED stage
        /\ UNCHANGED <<rel, all>>
Next == Take
Spec == Init /\ [][Next]_vars
Finished == stage > Len(Sizes(NCams, all))
NoTargetTwice == Disjoint(table)
TableLegal == Legal(rel, Counts, NCams, Accept, all, table)
TableOrdered == LargestFirst(table) /\ BestFirst(rel, table)
TableComplete == Finished => Complete(rel, Counts, NCams, Accept, all, table)
=============================================================================
