"""C10 epipolar candidate search."""
import random
from vlib.core import *

DIRS = [(3, 4), (4, 3), (5, 12), (12, 5), (8, 15), (15, 8), (1, 0), (0, 1), (7, 24), (20, 21), (2, 3), (1, 1), (5, 1), (0, 0)]
SIZES = [2 ** k + d for k in range(3, 15) for d in (-2, -1, 0, 1)] + [19999, 20000, 12287, 6143, 10239]


def scene(rng):
    im = [rng.choice((400, 800, 1280)), rng.choice((400, 1024))]
    pitch = [rng.choice((1, 2)), rng.choice((1, 2))]
    h = [rng.choice((0, 0, 3, -5)), rng.choice((0, 0, 2, -4))]
    return im, pitch, h


def head(im, pitch, h, seg, tol, lim, ref):
    return "epi " + " ".join(map(str, im + pitch + h + list(seg) + [tol] + lim + ref)) + " "


def segment(rng):
    dx, dy = rng.choice(DIRS)
    k = rng.randint(1, max(1, 40 // max(dx, dy, 1)))
    sx, sy = rng.choice((1, -1)), rng.choice((1, -1))
    x, y = rng.randint(-30, 30), rng.randint(-30, 30)
    return x, y, x + sx * k * dx, y + sy * k * dy


def explicit(rng):
    im, pitch, h = scene(rng)
    seg = segment(rng)
    if rng.random() < .08:
        w, by = rng.randint(0, 1), rng.choice((300, -300))
        seg = tuple(v + by * (i % 2 == w) for i, v in enumerate(seg))
    tol = rng.choice((1, 3, 5, 9, 21, 51))     # odd eighths: never on a half-unit point's box border
    lim = [rng.choice((0, 4, 8, 12, 16)) for _ in range(3)] + [rng.choice((0, 0, 4, 8, 12))]
    ref = [rng.randint(1, 8) for _ in range(3)] + [rng.randint(4, 60)]
    n = rng.choice((1, 2, 4, 8, 20, 60, 260))
    near = rng.random() < .7
    pts = []
    for _ in range(n):
        if near:      # around the segment
            t = rng.randint(-2, 12)
            x = 2 * seg[0] + (seg[2] - seg[0]) * 2 * t // 10 + rng.randint(-6, 6)
            y = 2 * seg[1] + (seg[3] - seg[1]) * 2 * t // 10 + rng.randint(-6, 6)
        else:
            x, y = rng.randint(-120, 120), rng.randint(-120, 120)
        pts.append((x, y))
    pts.sort(key=lambda p: p[0])
    perm = list(range(n)); rng.shuffle(perm)
    s = head(im, pitch, h, seg, tol, lim, ref) + f"0 {n} "
    alike = rng.random() < .5
    for i, (x, y) in enumerate(pts):
        f = [max(1, v + rng.randint(-1, 1)) for v in ref] if alike else [rng.randint(1, 8) for _ in range(3)] + [rng.randint(1, 60)]
        s += f"{x} {y} {perm[i]} " + " ".join(map(str, f)) + " "
    return s + "\n"


def formula(rng, n):
    k = rng.choice((1, 2, 10))
    off = n // k // 2
    width = n // k
    m, w = rng.choice((7, 31)), rng.choice((61, 97))
    at = rng.choice((0, 0, 0, 1, width // 2, width, rng.randrange(width + 1))) - off       # half units
    dx, dy = rng.choice(((3, 4), (5, 12), (1, 0), (0, 1), (12, 5)))
    x, y = at // 2, rng.randint(-10, 0)
    seg = (x, y, x + dx, y + dy)
    im = [max(400, 16 * (width + 50)), 1000]
    return head(im, [1, 1], [0, 0], seg, rng.choice((5, 21, 51)), [4, 4, 4, 4], [4, 2, 2, 40]) + f"1 {n} {k} {off} {m} {w}\n"


def body(c):
    sizes = "1.." + str(20000 if c.thorough else 1100) + " \\cup {" + ",".join(map(str, SIZES)) + "}"
    c.model("CoarseSearchRun", "SPECIFICATION Spec\nCONSTANTS Sizes <- S\nSlack = 12\nStepBack = TRUE\nINVARIANTS NothingSkipped ReadsInside\nCHECK_DEADLOCK FALSE\n",
            files={"CoarseSearchRun.tla": f"---- MODULE CoarseSearchRun ----\nEXTENDS CoarseSearch\nS == {sizes}\n====\n"})
    rng = random.Random(c.seed)
    cases = [explicit(rng) for _ in range(30000 if c.thorough else 3000)]
    cases += [formula(rng, n) for n in list(range(2, 71)) + SIZES for _ in range((20 if n < 3000 else 8) if c.thorough else (2 if n < 3000 else 4))]
    c.check_records("TraceEpi", build_harness("h_search"), cases)
    s = c.seed * 100000 + 50000
    c.check_records("TraceGeom", build_harness("h_geom"), [f"epi {s + i} {i % 3}\n" for i in range(8000 if c.thorough else 1000)])


main("C10", body, assumptions=["points exactly on the rim of the tolerance band may be taken or not",
                               "half-unit coordinates, segments mostly along Pythagorean directions so that distances are rational"])
