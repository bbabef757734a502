"""C16 matching known points to detections: SortGrid (scan model), every small instance and random ones replayed in C and Python."""
import random
from vlib.core import *
LAYOUTS = ("c", "f", "rows2", "cols", "rev", "wide")

CFG = """SPECIFICATION Spec
CONSTANTS Points <- P
Spots <- S
MaxTargets = {t}
MaxPoints = {p}
Eps = {e}
Size <- I
INVARIANTS {inv}
CHECK_DEADLOCK FALSE
"""
WRAP = """---- MODULE {name} ----
EXTENDS {base}
P == {pts}
S == {spots}
I == <<8, 8>>
====
"""


def tup(ps):
    return "{" + ", ".join(f"<<{x}, {y}>>".replace("<<-", "<<0-").replace(" -", " 0-") for x, y in ps) + "}"


def near(rng):
    u = rng.choice((1, 16, 64))
    n = rng.choice((0, 1, 2, 3, 5, 8, 30))
    w = rng.choice((3, 6, 20))
    pts = [(u * rng.randint(0, w), u * rng.randint(0, w)) for _ in range(n)]
    p = (u * rng.randint(-1, w + 1), u * rng.randint(-1, w + 1))
    e = u * rng.choice((0, 1, 2, 3, 8, 25)) if u == 64 else u * rng.randint(0, 40)
    return f"near {n} " + " ".join(f"{x} {y}" for x, y in pts) + f" {p[0]} {p[1]} {e}\n"


def exact(rng):
    """Camera straight above: 1, 2 and 1/2 pixels per millimetre at z = 0, 32 and -64; odd quarter pixels never meet the edge of a window."""
    imx, imy = rng.choice(((40, 40), (64, 30), (41, 57), (200, 120)))
    eps = rng.choice((1, 2, 3, 5, 10, 25, 40))
    fix, tg = [], []
    for _ in range(rng.choice((1, 2, 4, 8, 20))):
        z = rng.choice((0, 0, 128, -256))
        f = {0: 1, 128: 2, -256: .5}[z]
        b = rng.choice((0, 0, 0, eps))
        px = 4 * rng.randint(-imx // 2 - b, imx // 2 + b) + 1 + 2 * (imx % 2)     # quarter pixels from the centre
        py = 4 * rng.randint(-imy // 2 - b, imy // 2 + b) + 1 + 2 * (imy % 2)
        if z == 128:
            px, py = px + 1, py + 1
        fix.append((int(px / f), int(py / f), z))
    for _ in range(rng.choice((0, 1, 3, 8, 20, 60))):
        if rng.random() < .7:
            x, y, z = rng.choice(fix)
            f = {0: 1, 128: 2, -256: .5}[z]
            d = 64 * min(eps + 1, rng.choice((1, 2, 4, eps + 1)))
            t = [32 * imx + int(16 * x * f) + rng.randint(-d, d), 32 * imy - int(16 * y * f) + rng.randint(-d, d)]
            g = rng.choice((1, 32))
            t = [v // g * g for v in t]
            # keep off the edges of the windows
            t = [v + (1 if v % 16 == 0 and g == 1 else 0) for v in t]
        else:
            t = [rng.randint(-64 * eps, 64 * (imx + eps)), rng.randint(-64 * eps, 64 * (imy + eps))]
        if all((32 * imx + int(16 * a * {0: 1, 128: 2, -256: .5}[c]) - t[0]) % 64 and (32 * imy - int(16 * b * {0: 1, 128: 2, -256: .5}[c]) - t[1]) % 64
               or (abs(32 * imx + int(16 * a * {0: 1, 128: 2, -256: .5}[c]) - t[0]) != 64 * eps and abs(32 * imy - int(16 * b * {0: 1, 128: 2, -256: .5}[c]) - t[1]) != 64 * eps)
               for a, b, c in fix):
            tg.append(t)
    return imx, imy, eps, fix, tg


def cexact(rng):
    imx, imy, eps, fix, tg = exact(rng)
    return (f"grid 1 {rng.randrange(100)} {imx} {imy} {eps} {len(fix)} " + " ".join(f"{x} {y} {z}" for x, y, z in fix) +
            f" {len(tg)} " + " ".join(f"-1 {x} {y}" for x, y in tg) + "\n")


def general(rng):
    imx, imy, eps = rng.choice((400, 500, 301)), rng.choice((300, 400, 517)), rng.choice((2, 5, 10, 25))
    nf, nt = rng.choice((1, 5, 20, 60)), rng.choice((0, 1, 5, 30, 90))
    s = f"grid 0 {rng.randrange(10 ** 6)} {imx} {imy} {eps} {nf} " + " ".join(f"{rng.randint(-300, 300)} {rng.randint(-300, 300)} {rng.randint(-100, 100)}" for _ in range(nf)) + f" {nt}"
    for _ in range(nt):
        d = 64 * rng.choice((1, 2, eps, eps + 1))
        s += f" {rng.randrange(nf)} {rng.randint(-d, d)} {rng.randint(-d, d)}" if rng.random() < .8 else f" -1 {rng.randrange(64 * imx)} {rng.randrange(64 * imy)}"
    return s + "\n"


def body(c):
    cases = []
    # the scan on every small instance; all of them are replayed in the code
    spots = [(2, 4), (4, 4), (5, 2), (6, 6), (0, 4)]
    points = [(4, 4), (3, 3), (-1, 4), (8, 9)]
    for e, t, p in ((2, 3, 1), (1, 2, 2), (3, 3, 2)) + (((4, 4, 2),) if c.thorough else ()):
        files = {"SGrun.tla": WRAP.format(name="SGrun", base="SortGrid", pts=tup(points), spots=tup(spots))}
        c.model("SGrun", CFG.format(t=t, p=p, e=e, inv="Matched Complete Alone"), files=files, timeout=840)
    files = {"SGgen.tla": WRAP.format(name="SGgen", base="GenSortGrid", pts=tup(points), spots=tup(spots))}
    for g in c.generate("SGgen", CFG.format(t=3, p=1, e=2, inv="Emit"), files=files):
        for e in (1, 2, 3):
            (x, y), = g["fix"]
            cases.append(f"near {len(g['tg'])} " + " ".join(f"{a * 64} {b * 64}" for a, b in g["tg"]) + f" {x * 64} {y * 64} {e * 64}\n")
            # the same as a matching job, a quarter pixel off the grid
            cases.append(f"grid 1 0 8 8 {e} 1 {4 * x - 16 + 1} {16 - 4 * y + 1} 0 {len(g['tg'])} " + " ".join(f"-1 {a * 64} {b * 64}" for a, b in g["tg"]) + "\n")
    rng = random.Random(c.seed)
    k = 10 if c.thorough else 1
    cases += [near(rng) for _ in range(2000 * k)] + [cexact(rng) for _ in range(1500 * k)] + [general(rng) for _ in range(800 * k)]
    c.check_records("TraceSortGrid", build_harness("h_sortgrid"), cases)
    jobs = []
    for i in range(200 * k):
        imx, imy, eps, fix, tg = exact(rng)
        default = int(i % 5 == 0)
        if default and any((32 * imx + int(16 * a * {0: 1, 128: 2, -256: .5}[z]) - t[0]) % 64 == 0 or (32 * imy - int(16 * b * {0: 1, 128: 2, -256: .5}[z]) - t[1]) % 64 == 0
                           for a, b, z in fix for t in tg):
            default = 0
        jobs.append(dict(im=[imx, imy], eps=eps, fix=fix, tg=tg, default=default, inl=rng.choice(LAYOUTS)))
    c.check_records_py("TraceSortGrid", "py_sortgrid.py", jobs)


main("C16", body, assumptions=["a window edge exactly on a detection is decided only where no projection is involved (nearest_neighbour_pix)",
                               "for distorted cameras the projection itself is taken from the library (C18-C20 check it) and is uncertain by 1/64 pixel"])
