"""C19 distortion and correction: whole-number forward model, round trips."""
import random
from vlib.core import *

LAYS = ("c", "f", "rows2", "cols", "rev", "wide")


def pick(rng, lim):
    return rng.choice((0, rng.randint(-lim, lim), rng.choice((-1, 1)) * lim))


def params(rng, r):
    """Distortion whose steepest part, over a disc of radius r mm, is limited: moderate."""
    while True:
        g = rng.choice((1, 1, 6))
        d = [pick(rng, 300 * g), pick(rng, 200 * g), pick(rng, 100 * g), pick(rng, 300 * g), pick(rng, 300 * g), pick(rng, 20), pick(rng, 20)]
        keep = rng.choice((range(7), range(7), (0,), (0,), (0, 3, 4), (1, 2), (3,), (4,), (3, 4), (5,), (6,), (5, 6), ()))
        d = [v if i in keep else 0 for i, v in enumerate(d)]
        steep = 3 * abs(d[0]) * 1e-6 * r**2 + 5 * abs(d[1]) * 1e-8 * r**4 + 7 * abs(d[2]) * 1e-10 * r**6 + 6 * (abs(d[3]) + abs(d[4])) * 1e-6 * r
        if steep <= .4:
            return d


def rec(op, d, xh, yh, tol, pts):
    return f"{op} {' '.join(map(str, d))} {xh} {yh} {tol} {len(pts)} {' '.join(f'{a} {b}' for a, b in pts)}\n"


def body(c):
    from itertools import product
    ps = ", ".join("[k1 |-> %d, k2 |-> %d, k3 |-> %d, p1 |-> %d, p2 |-> %d, scx |-> %d, she |-> %d]" % t
                   for t in product((0, 120), (0, -30), (0, 20), (0, -40), (0, 55), (0, 7), (0, -9)))
    wrap = f"---- MODULE MCDistort ----\nEXTENDS Distort\nMCParams == {{{ps}}}\nMCSpots == {{<<a, b>> : a, b \\in -4..4}}\n====\n"
    c.model("MCDistort", "SPECIFICATION Spec\nCONSTANTS Params <- MCParams\nSpots <- MCSpots\nINVARIANTS Nothing Centre RadialOnly Turned\nCHECK_DEADLOCK FALSE\n", files={"MCDistort.tla": wrap})
    rng = random.Random(c.seed)
    n, text = (6000 if c.thorough else 900), []
    grid9 = [(a, b) for a in range(-3, 4) for b in range(-3, 4)]
    for i in range(n):
        r = rng.choice((4, 7, 10))
        d = params(rng, r)
        xh, yh = rng.choice((0, rng.randint(-1500, 1500))), rng.choice((0, rng.randint(-1500, 1500)))
        tol = rng.choice((1, 10, 100, 10000))
        if i % 2:
            pts = [p for p in ([(0, 0)] if rng.random() < .3 else []) + [(rng.randint(-r, r), rng.randint(-r, r)) for _ in range(12)] if p[0]**2 + p[1]**2 <= r * r]
            if i % 20 == 1:
                pts = grid9
            text.append(rec("grid", d, xh, yh, tol, pts or [(0, 0)]))
        else:
            pts = [(rng.randint(-700 * r, 700 * r), rng.randint(-700 * r, 700 * r)) for _ in range(12)]
            text.append(rec("free", d, xh, yh, tol, pts))
    c.check_records("TraceDistort", build_harness("h_distort"), text)
    py = []
    for i in range(1200 if c.thorough else 250):
        r = rng.choice((4, 7, 10))
        pts = [p for p in [(0, 0)] + [(rng.randint(-r, r), rng.randint(-r, r)) for _ in range(rng.randint(0, 8))] if p[0]**2 + p[1]**2 <= r * r]
        rng.shuffle(pts)
        py.append(dict(d=params(rng, r), xh=rng.choice((0, rng.randint(-1500, 1500))), yh=rng.choice((0, rng.randint(-1500, 1500))),
                       tol=rng.choice((None, 1, 100, 10000)), pts=pts, inl=rng.choice(LAYS), outl=rng.choice((None, None, "same") + LAYS)))
    c.check_records_py("TraceDistort", "py_distort.py", py)


main("C19", body, assumptions=["moderate distortion: the distortion's slope stays below 40 % over the points used; sensor axis ratio and shear within 2 %",
                               "forward distortion is judged against exact whole-number arithmetic to about a nanometre, round trips to the tolerance asked for"])
