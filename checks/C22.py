"""C22 linear algebra: every shape and padding, integer contents."""
import random
from vlib.core import *

CONST = "CONSTANTS Top = {}\nPads = {{0,1,3}}\nCHECK_DEADLOCK FALSE\n"


def posdef(rng, n, w):
    """Symmetric positive definite with smallest eigenvalue of at least one; entries small enough for the oracle."""
    while True:
        b = [[rng.randint(-3, 3) for _ in range(n)] for _ in range(n)]
        a = [[sum(b[k][i] * b[k][j] for k in range(n)) + (i == j) * rng.randint(1, 4) for j in range(n)] for i in range(n)]
        if max(abs(x) for r in a for x in r) <= 120:
            return [a[i][j] if j < n else rng.randint(1, 5) for i in range(n) for j in range(w)]


def body(c):
    rng = random.Random(c.seed)
    c.model("LinAlg", "SPECIFICATION Spec\nINVARIANTS InBounds IsProduct\nPROPERTY Finishes\n" + CONST.format(3 if c.thorough else 2))
    shapes = c.generate("GenLinAlg", "SPECIFICATION GenSpec\nINVARIANT Emit\n" + CONST.format(5 if c.thorough else 4))
    out = []
    ints = lambda n, lim: [rng.choice((0, rng.randint(-3, 3), rng.randint(-lim, lim))) for _ in range(n)]
    for d in shapes:
        m, n, k, pm, pn = d["m"], d["n"], d["k"], d["padm"], d["padn"]
        w = n + pn
        if d["k"] == 1 or pm == pn or c.thorough:
            out.append(("matmul", m, n, k, pm, pn, ints(m * w, 200), ints(n * k, 200)))
        if k == 1 and pm == 0:
            for rep in range(3):
                M = m + rng.choice((0, 4, 30))
                out.append(("ata", M, n, 1, 0, pn, ints(M * w, 300), [0]))
                out.append(("atl", M, n, 1, 0, pn, ints(M * w, 300), ints(M, 300)))
            if m == n:
                for rep in range(40 if c.thorough else 12):
                    N = n + rng.randint(0, 2)
                    out.append(("matinv", N, N, 1, 0, pn, posdef(rng, N, N + pn), [0]))
    scale = lambda: rng.choice((0, 0, -60, -40, -25, -9, 11, 33))
    text = [" ".join(map(str, x[:6])) + f" {scale()} " + " ".join(map(str, x[6] + x[7])) + "\n" for x in out]
    ops = ("subt", "add", "scale", "copy", "set", "init", "dot", "cross", "norm", "diffnorm", "cmp", "approx", "unit")
    for i in range(20000 if c.thorough else 2600):
        op = ops[i % len(ops)]
        lim = rng.choice((2, 9, 1000)) if op not in ("norm", "diffnorm", "unit") else rng.choice((2, 9))
        u, s = [rng.randint(-lim, lim) for _ in range(3)], rng.randint(0, 4) if op == "approx" else rng.randint(-9, 9)
        v = list(u) if rng.random() < .3 else [rng.randint(-lim, lim) for _ in range(3)]
        if rng.random() < .6 and v == u:
            v[rng.randint(0, 2)] += rng.choice((-1, 1)) * (s + rng.randint(0, 1) if op == "approx" else 1)
        if op == "unit" and rng.random() < .1:
            u = [0, 0, 0]
        alias = rng.choice((0, 0, 1, 2)) if op in ("subt", "add") else rng.choice((0, 1)) if op in ("scale", "unit") else 0
        text.append(f"{op} {alias} {s} {scale()} {' '.join(map(str, u + v))}\n")
    c.check_records("TraceLinAlg", build_harness("h_linalg"), text)


main("C22", body, assumptions=["integer contents in units of a power of two from 2^-60 to 2^33, so products are exact; inverses of positive definite matrices, as the adjustment uses them, judged to a few millionths",
                               "norm_cross is declared but not defined by the library"])
