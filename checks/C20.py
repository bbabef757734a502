"""C20 rays, projections and positions: exact whole-number rays, and relations on random scenes."""
import random
from vlib.core import *


def cross(u, v):
    return (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])


def norm2(u):
    return sum(x * x for x in u)


def skew(rng):
    while True:
        m = rng.choice((1, 2, 3, 4))
        u, v = [[rng.randint(-m, m) for _ in range(3)] for _ in range(2)]
        if 0 < norm2(cross(u, v)) <= 500:
            a, b = [[rng.randint(-9, 9) for _ in range(3)] for _ in range(2)]
            g = abs(sum(x * y for x, y in zip([q - p for p, q in zip(a, b)], cross(u, v))))
            if g <= 900:
                if rng.random() < .2:      # crossing rays
                    b = [p + 2 * x - 3 * y for p, x, y in zip(a, u, v)]
                if rng.random() < .05:
                    b = list(a)
                return "skew " + " ".join(map(str, a + u + b + v)) + "\n"


def cams(rng):
    """Whole-number cameras looking straight down, no two used rays parallel."""
    while True:
        n = rng.choice((2, 3, 4))
        c = [[int(rng.random() < .75), rng.randint(-6, 6), rng.randint(-6, 6), rng.randint(6, 12), rng.randint(-2, 2), rng.randint(-2, 2), rng.randint(1, 3)] for _ in range(n)]
        if rng.random() < .3:                  # all see one point
            p = [rng.randint(-3, 3), rng.randint(-3, 3)]
            for k in c:
                k[3] = k[6] * rng.choice((2, 3, 4)) if k[6] > 1 else rng.choice((6, 8))
                k[1], k[2] = p[0] - k[4] * k[3] // k[6], p[1] - k[5] * k[3] // k[6]
        use = [k for k in c if k[0]]
        if len(use) >= 2 and all(0 < norm2(cross((a[4], a[5], -a[6]), (b[4], b[5], -b[6]))) <= 400 for i, a in enumerate(use) for b in use[:i]):
            return f"pos {n} " + " ".join(" ".join(map(str, k)) for k in c) + "\n"


def body(c):
    c.model("SkewRays", f"SPECIFICATION Spec\nCONSTANTS Reach = {3 if c.thorough else 2}\nSlope = 1\nINVARIANTS Perpendicular OnRays Length Swapped\nCHECK_DEADLOCK FALSE\n", timeout=800)
    rng, k = random.Random(c.seed), 8 if c.thorough else 1
    s = c.seed * 100000
    text = [skew(rng) for _ in range(2500 * k)] + [cams(rng) for _ in range(2500 * k)]
    text += [f"scene {s + i} {rng.choice((0, 1, 1, 2))} {rng.choice((2, 3, 4))} {rng.choice((2, 5, 8))}\n" for i in range(500 * k)]
    text += [f"epi {s + i} {i % 3}\n" for i in range(500 * k)]
    text += [f"dumb {s + i} {i % 3} {2 + i % 3} {rng.randint(2, 9)} {rng.randint(0, 5)} {rng.randint(50000, 150000)}\n" for i in range(200 * k)]
    text += [f"nlay {s + i} {1 + i % 4}\n" for i in range(300 * k)]
    c.check_records("TraceGeom", build_harness("h_geom"), text)


main("C20", body, assumptions=["rays that are not parallel, cameras on the air side of one window, points beyond it",
                               "incidence judged to 1.5 micrometres in layered media (the library's own stopping rule) and to nanometres in one medium; whole-number rays exactly"])
