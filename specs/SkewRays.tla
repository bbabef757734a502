------------------------------ MODULE SkewRays ------------------------------
(* Two skew rays a + s u, b + t v with whole-number coordinates: the shortest *)
(* segment between them, exactly. N is the squared length of the common       *)
(* perpendicular; positions below are multiplied by N.                        *)
EXTENDS Integers
Cross(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Minus(u, v) == <<u[1] - v[1], u[2] - v[2], u[3] - v[3]>>
N(u, v) == Dot(Cross(u, v), Cross(u, v))
\* N times the point on the first ray nearest to the second
Foot1(a, u, b, v) == LET s == Dot(Cross(u, v), Cross(Minus(b, a), v)) n == N(u, v) IN [k \in 1..3 |-> n * a[k] + s * u[k]]
Foot2(a, u, b, v) == LET t == Dot(Cross(u, v), Cross(Minus(b, a), u)) n == N(u, v) IN [k \in 1..3 |-> n * b[k] + t * v[k]]
\* 2 N times the middle of the segment; the distance times the root of N
Middle2N(a, u, b, v) == LET f == Foot1(a, u, b, v) g == Foot2(a, u, b, v) IN [k \in 1..3 |-> f[k] + g[k]]
Gap(a, u, b, v) == LET d == Dot(Minus(b, a), Cross(u, v)) IN IF d < 0 THEN -d ELSE d

CONSTANTS Reach, Slope
VARIABLES ray1, ray2
vars == <<ray1, ray2>>
Vec(m) == (-m..m) \X (-m..m) \X (-m..m)
Init == /\ ray1 \in [at : Vec(Reach), dir : Vec(Slope)] /\ ray2 \in [at : {<<0, 0, 0>>}, dir : Vec(Slope)]
        /\ N(ray1.dir, ray2.dir) # 0
Spec == Init /\ [][FALSE]_vars
A == ray1.at
U == ray1.dir
B == ray2.at
V == ray2.dir
F1 == Foot1(A, U, B, V)
F2 == Foot2(A, U, B, V)
\* the segment between the feet is perpendicular to both rays, has the length claimed, and no other segment is shorter
Perpendicular == Dot(Minus(F1, F2), U) = 0 /\ Dot(Minus(F1, F2), V) = 0
OnRays == LET n == N(U, V) d1 == Minus(F1, [k \in 1..3 |-> n * A[k]]) d2 == Minus(F2, [k \in 1..3 |-> n * B[k]])
          IN Cross(d1, U) = <<0, 0, 0>> /\ Cross(d2, V) = <<0, 0, 0>>
Length == Dot(Minus(F1, F2), Minus(F1, F2)) = Gap(A, U, B, V) * Gap(A, U, B, V) * N(U, V)
Swapped == Middle2N(A, U, B, V) = Middle2N(B, V, A, U) /\ Gap(A, U, B, V) = Gap(B, V, A, U)
=============================================================================
