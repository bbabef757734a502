------------------------------- MODULE LinAlg -------------------------------
(* The matrix routines of the adjustment, on integer matrices held row by row *)
(* with a padded row length, as their algebraic definitions; and the matrix   *)
(* product as the library walks memory, one scalar product per step, to show  *)
(* that the walk stays inside the matrices and yields the definition.         *)
EXTENDS Naturals, Integers, Sequences
RECURSIVE SumTo(_, _)
SumTo(f(_), n) == IF n = 0 THEN 0 ELSE SumTo(f, n - 1) + f(n)
\* 1-based entry of a matrix with rows of length w
E(a, w, i, j) == a[(i - 1) * w + j]
Product(b, c, n, k, w, i, j) == SumTo(LAMBDA l : E(b, w, i, l) * E(c, k, l, j), n)
Normal(a, m, w, i, j) == SumTo(LAMBDA r : E(a, w, r, i) * E(a, w, r, j), m)
Transposed(a, l, m, w, i) == SumTo(LAMBDA r : E(a, w, r, i) * l[r], m)

CONSTANTS Top, Pads
VARIABLES dim, i, j, l, pb, pc, pa, x, out
vars == <<dim, i, j, l, pb, pc, pa, x, out>>
W == dim.n + dim.padn
B == [q \in 1..(dim.m * W) |-> 1 + ((7 * q) % 11)]
C == [q \in 1..(W * dim.k) |-> 1 + ((5 * q) % 13)]
Init == /\ dim \in [m : 1..Top, n : 1..Top, k : 1..Top, padm : Pads, padn : Pads]
        /\ i = 0 /\ j = 0 /\ l = 0 /\ pb = 0 /\ pc = 0 /\ pa = 0 /\ x = 0 /\ out = [q \in {} |-> 0]
Busy == i < dim.k
Take == /\ Busy /\ j < dim.m /\ l < dim.n
        /\ x' = x + B[pb + 1] * C[pc + 1] /\ pb' = pb + 1 /\ pc' = pc + dim.k /\ l' = l + 1
        /\ UNCHANGED <<dim, i, j, pa, out>>
Store == /\ Busy /\ j < dim.m /\ l = dim.n
         /\ out' = [q \in DOMAIN out \cup {pa} |-> IF q = pa THEN x ELSE out[q]]
         /\ pb' = pb + dim.padn /\ pa' = pa + dim.k /\ pc' = i /\ x' = 0 /\ l' = 0 /\ j' = j + 1
         /\ UNCHANGED <<dim, i>>
Column == /\ Busy /\ j = dim.m
          /\ i' = i + 1 /\ j' = 0 /\ l' = 0 /\ x' = 0 /\ pb' = 0 /\ pc' = i + 1 /\ pa' = i + 1
          /\ UNCHANGED <<dim, out>>
Next == Take \/ Store \/ Column
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InBounds == (Busy /\ j < dim.m /\ l < dim.n) => pb < Len(B) /\ pc < Len(C) /\ pa < dim.m * dim.k
IsProduct == ~Busy => DOMAIN out = 0..(dim.m * dim.k - 1)
                      /\ \A r \in 1..dim.m, s \in 1..dim.k : out[(r - 1) * dim.k + s - 1] = Product(B, C, dim.n, dim.k, W, r, s)
Finishes == <>(~Busy)
=============================================================================
