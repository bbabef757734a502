---------------------------- MODULE TraceLinAlg ----------------------------
(* Records of the matrix and vector routines.                                 *)
EXTENDS TraceLib
VARIABLE l
A == INSTANCE LinAlg WITH Top <- 1, Pads <- {0}, dim <- 0, i <- 0, j <- 0, l <- 0, pb <- 0, pc <- 0, pa <- 0, x <- 0, out <- 0
Mark == 77777       \* what the harness writes into padding
Sq(v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3]
Minus(u, v) == <<u[1] - v[1], u[2] - v[2], u[3] - v[3]>>
NormOk(n, s) == Abs(n * n - 1000000 * s) <= n + 1          \* n in thousandths
Mat(r) == LET W == r.n + r.padn IN
  CASE r.op = "matmul" -> \A a \in 1..r.m, b \in 1..r.k : A!E(r.out, r.k, a, b) = A!Product(r.b, r.c, r.n, r.k, W, a, b)
    [] r.op = "ata" -> \A a \in 1..r.n, b \in 1..W : A!E(r.out, W, a, b) = (IF b <= r.n THEN A!Normal(r.b, r.m, W, a, b) ELSE Mark)
    [] r.op = "atl" -> \A a \in 1..r.n : r.out[a] = A!Transposed(r.b, r.c, r.m, W, a)
    \* inverse in millionths: its product with the matrix is the unit matrix up to the rounding
    [] r.op = "matinv" -> LET lim == 1 + r.n * r.lim IN
         /\ \A a, b \in 1..r.n : Abs(A!SumTo(LAMBDA q : A!E(r.b, W, a, q) * A!E(r.out, W, q, b), r.n) - (IF a = b THEN 1000000 ELSE 0)) <= lim
         /\ \A a \in 1..r.n, b \in 1..W : b > r.n => A!E(r.out, W, a, b) = A!E(r.b, W, a, b) * 1000000
Vec(r) == LET u == r.u v == r.v IN
  CASE r.op = "subt" -> r.out = Minus(u, v)
    [] r.op = "add" -> r.out = <<u[1] + v[1], u[2] + v[2], u[3] + v[3]>>
    [] r.op = "scale" -> r.out = <<r.s * u[1], r.s * u[2], r.s * u[3]>>
    [] r.op = "copy" -> r.out = u
    [] r.op = "set" -> r.out = u
    [] r.op = "init" -> r.out = <<2000000001, 2000000001, 2000000001>>
    [] r.op = "dot" -> r.val = u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
    [] r.op = "cross" -> r.out = <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
    [] r.op = "norm" -> NormOk(r.val, Sq(u))
    [] r.op = "diffnorm" -> NormOk(r.val, Sq(Minus(u, v)))
    [] r.op = "cmp" -> (r.val # 0) = (u = v)
    [] r.op = "approx" -> (r.val # 0) = (\A k \in 1..3 : Abs(u[k] - v[k]) <= r.s)
    \* components in ten-thousandths, length of the vector in thousandths
    [] r.op = "unit" -> IF Sq(u) = 0 THEN r.out = <<0, 0, 0>>
                        ELSE NormOk(r.val, Sq(u)) /\ \A k \in 1..3 : Abs(r.out[k] * r.val - u[k] * 10000000) <= r.val + 10000
Fails(r) == Failing({ <<r.op, IF r.op \in {"matmul", "ata", "atl", "matinv"} THEN Mat(r) ELSE Vec(r)>>, <<"inputs-untouched", r.same = 1>> })
TraceInit == InitRegs /\ l = 1
TraceNext == l <= Len(Trace) /\ Judge(l, Fails(Trace[l])) /\ Consumed(l) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == Accepted
=============================================================================
