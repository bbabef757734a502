"""C08 candidate search in image space and ranking of the candidates of all cameras."""
import random
from vlib.core import *

SIZES = [2 ** k + d for k in range(2, 15) for d in (-2, -1, 0, 1)] + [19999, 20000, 12287, 6143, 10239]


def explicit(rng, kind):
    imx, imy = rng.choice(((64, 64), (40, 100), (200, 60)))
    n = rng.choice((0, 1, 2, 3, 5, 9, 20, 70))
    grid = rng.choice((1, 4, 16))
    pts = sorted(([rng.randrange(0, imx * 4 + 1, grid), rng.randrange(0, imy * 4 + 1, grid), rng.choice((-1, i, i))] for i in range(n)),
                 key=lambda p: p[1])
    for i, p in enumerate(pts):
        if p[2] != -1: p[2] = 100 + i
    c = [rng.randrange(-8, imx * 4 + 9), rng.randrange(-8, imy * 4 + 9)] if rng.random() < .2 else \
        [rng.randrange(0, imx * 4 + 1, grid), rng.randrange(0, imy * 4 + 1, grid)]
    w = [rng.choice((0, 4, 13, 40, 160, 1000)) for _ in range(4)]
    return f"{kind} {imx} {imy} {c[0]} {c[1]} {' '.join(map(str, w))} 0 {n} " + " ".join(f"{a} {b} {t}" for a, b, t in pts) + "\n"


def formula(rng, kind, n):
    k = rng.choice((1, 3, 40))
    w = rng.choice((97, 211))
    m = rng.choice((7, 31))
    imy = n // k // 4 + 2
    row = rng.choice((0, 0, 1, n // k // 2, n // k, rng.randrange(n // k + 1)))     # near the start, middle, end
    cx, cy = rng.randrange(w), min(row + rng.choice((0, 1, 5)), imy * 4)
    win = [rng.choice((20, 60, 200)) for _ in range(2)] + [rng.choice((1, 6, 30)) for _ in range(2)]
    return f"{kind} {w // 4 + 1} {imy} {cx} {cy} {' '.join(map(str, win))} 1 {n} {k} {m} {w} {rng.choice((2, 3, 5))}\n"


def body(c):
    c.model("CandSearch", f"SPECIFICATION Spec\nCONSTANTS MaxSeen = {8 if c.thorough else 6}\nDists = {{1,2,3}}\nINVARIANT KeepsNearest\nCHECK_DEADLOCK FALSE\n")
    top = 20000 if c.thorough else 2100
    sizes = "1.." + str(top) + " \\cup {" + ",".join(str(s) for s in SIZES) + "}"
    c.model("CoarseSearchRun", f"SPECIFICATION Spec\nCONSTANTS Sizes <- S\nSlack = 12\nStepBack = TRUE\nINVARIANTS NothingSkipped ReadsInside\nCHECK_DEADLOCK FALSE\n",
            files={"CoarseSearchRun.tla": f"---- MODULE CoarseSearchRun ----\nEXTENDS CoarseSearch\nS == {sizes}\n====\n"})
    tabs = c.generate("GenFreq", "SPECIFICATION Spec\nCONSTANTS Cams = 3\nSlots = 2\nIdSet = {0,1,2}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n")
    tabs += c.generate("GenFreq", "SPECIFICATION Spec\nCONSTANTS Cams = 2\nSlots = 2\nIdSet = {0,1,2,3}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n")
    tabs += c.generate("GenFreq", "SPECIFICATION Spec\nCONSTANTS Cams = 1\nSlots = 3\nIdSet = {0,1,2}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n")
    if c.thorough:
        tabs += c.generate("GenFreq", "SPECIFICATION Spec\nCONSTANTS Cams = 4\nSlots = 2\nIdSet = {0,1,2}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n")
    rng = random.Random(c.seed)
    for _ in range(20000 if c.thorough else 2000):
        t = []
        for _ in range(rng.choice((1, 2, 3, 4, 4, 4))):
            ids = rng.sample(range(rng.choice((4, 6, 12))), rng.randint(0, 4))
            t.append(ids + [-1] * (4 - len(ids)))
        tabs.append(t)
    cases = [f"freq {len(t)} " + " ".join(" ".join(map(str, x)) for x in t) + "\n" for t in tabs]
    cases += [explicit(rng, rng.choice(("near", "near", "rest"))) for _ in range(40000 if c.thorough else 4000)]
    sizes = list(range(0, 71)) + SIZES
    cases += [formula(rng, kind, n) for n in sizes for kind in ("near", "rest") for _ in range((20 if n < 5000 else 8) if c.thorough else (2 if n < 5000 else 3)) if n]
    c.check_records("TraceCand", build_harness("h_search"), cases)


main("C08", body, assumptions=["target lists sorted by row, as tracking requires",
                               "coordinates in quarter pixels so that distances compare exactly"])
