"""C26 peak fitting: spots grown from every local maximum and joined across shallow valleys; all small images and random larger ones."""
import random
from vlib.core import *
from vlib.shapes import htree

ALL = [1, 10 ** 6, 1, 10 ** 4, 1, 10 ** 4, 0]


def q(w, h, th, d):
    return f"[w |-> {w}, h |-> {h}, thres |-> {th}, disco |-> {d}, x0 |-> 0, x1 |-> {w}, y0 |-> 0, y1 |-> {h}]"


def wrap(par, base, inner):
    return {"SegRun.tla": f"---- MODULE SegRun ----\nEXTENDS {base}\nK == {par}\nInn == {inner}\n====\n"}


def inner(w, h):
    return "{" + ",".join(str(y * w + x) for y in range(1, h - 1) for x in range(1, w - 1)) + "}"


def case(kind, k, want=()):
    return f"{kind} {k['w']} {k['h']} {k['cam']} {k['thres']} {k['disco']} {' '.join(map(str, k['win'] + k['lim'] + k['img']))} {' '.join(map(str, want))}\n"


def limits(rng):
    if rng.random() < .6:
        return ALL
    lim = []
    for top in (30, 8, 8):
        lo = rng.choice((1, 1, 1, 2, 3))
        lim += [lo, rng.choice((lo, lo + 2, top, 10 ** 4))]
    return lim + [rng.choice((0, 0, 100, 255, 600))]


def picture(rng, w, h, n):
    """Cones, plateaus and pairs of them close together, on a dark ground; now and then noise."""
    if rng.random() < .15:
        g = [rng.randint(0, 255) for _ in range(rng.randint(2, 5))]
        return [rng.choice(g) for _ in range(w * h)]
    px = [rng.randint(0, 12) for _ in range(w * h)]
    for _ in range(n):
        cx, cy, top, slope, rad = rng.randint(0, w - 1), rng.randint(0, h - 1), rng.randint(30, 255), rng.choice((0, 5, 20, 40, 70)), rng.randint(0, 3)
        for k in range(rng.choice((1, 1, 2))):
            square = rng.random() < .3
            for y in range(h):
                for x in range(w):
                    d = max(abs(x - cx), abs(y - cy)) if square else abs(x - cx) + abs(y - cy)
                    if d <= rad:
                        px[y * w + x] = max(px[y * w + x], top - slope * d + (rng.randint(-3, 3) if rng.random() < .2 else 0))
            cx, cy, top = cx + rng.randint(-5, 5), cy + rng.randint(-5, 5), max(20, min(255, top + rng.choice((0, 0, -10, 10, -60))))
    return [min(255, max(0, p)) for p in px]


def rand_case(rng, top, wide=False):
    w, h = (rng.randint(34, 44), rng.randint(6, 10)) if wide else (rng.randint(3, top), rng.randint(3, top))
    win = [0, w, 0, h]
    if rng.random() < .3:
        win = [rng.randint(-1, w // 2 if not wide else 2), rng.randint(w // 2 + 1 if not wide else w - 2, w + 1), rng.randint(-1, h // 2), rng.randint(h // 2 + 1, h + 1)]
    return dict(w=w, h=h, cam=rng.randint(0, 3), thres=rng.choice((0, 5, 12, 20, 60)), disco=rng.choice((0, 1, 5, 20, 60, 255)), win=win,
                lim=limits(rng), img=picture(rng, w, h, rng.randint(1, 7 if wide else 4)))


def grid(w, h):
    """A bright pixel at every second place: more spots than any fixed table holds."""
    px = [0] * (w * h)
    for y in range(1, h - 1, 2):
        for x in range(1, w - 1, 2):
            px[y * w + x] = 200
    return dict(w=w, h=h, cam=0, thres=10, disco=5, win=[0, w, 0, h], lim=ALL, img=px)


def body(c):
    inv = "INVARIANTS NothingTwice NothingLost PeaksFound DarkSeparates\nCHECK_DEADLOCK FALSE\n"
    for w, h, cells, greys, d in [(7, 3, inner(7, 3), "{0,3,5,9}", 2), (5, 5, inner(5, 5) if c.thorough else "{6,7,8,11,12,13,16}", "{0,4,9}", 0)] + \
            ([(8, 3, inner(8, 3), "{0,3,5,9}", 4), (5, 5, inner(5, 5), "{0,4,9}", 5)] if c.thorough else []):
        c.model("SegRun", "SPECIFICATION Spec\nCONSTANTS Q <- K\nInner <- Inn\nGreys = " + greys + "\n" + inv, files=wrap(q(w, h, 2, d), "Peaks", cells), timeout=800)
    rng = random.Random(c.seed)
    cases = []
    for w, h, cells, greys in [(7, 3, inner(7, 3), "{0,5,7,9}"), (5, 5, inner(5, 5), "{0,5,9}" if c.thorough else "{0,9}")]:
        for px in c.generate("SegRun", f"SPECIFICATION GenSpec\nCONSTANTS Q <- K\nInner <- Inn\nGreys = {greys}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n",
                             files=wrap(q(w, h, 4, 0), "GenSegment", cells), timeout=800):
            cases.append(case("peaks", dict(w=w, h=h, cam=rng.randint(0, 3), thres=4, disco=rng.choice((0, 1, 2, 3, 100)), win=[0, w, 0, h], lim=ALL, img=px)))
    for _ in range(10000 if c.thorough else 1200):
        cases.append(case("peaks", rand_case(rng, 16 if c.thorough else 12)))
    for _ in range(1500 if c.thorough else 150):
        cases.append(case("peaks", rand_case(rng, 0, True)))
    exe = build_harness("h_segment")
    c.check_records("TracePeaks", exe, cases)
    many = [grid(140, 140)] + ([grid(400, 400)] if c.thorough else [])
    cases = [case("many", k, [n_in(k), 1, 200, 0]) for k in many]
    n, lum = htree(12)      # a growth front wider than any fixed queue
    px = [0] * (n * n)
    for (x, y), d in lum.items():
        px[y * n + x] = 255 - d
    cases.append(case("many", dict(w=n, h=n, cam=0, thres=0, disco=3, win=[0, n, 0, n], lim=ALL, img=px), [1, len(lum), sum(px), 0]))
    c.check_records("TracePeaks", exe, cases)


def n_in(k):
    """Spots off the left, right and upper edge (the lower edge never cuts)."""
    w, h = k["w"], k["h"]
    return sum(1 for y in range(2, h - 1) for x in range(2, w - 2) if k["img"][y * w + x])


main("C26", body, assumptions=["thresholds 0..254; groups of more than four touching spots judged by their pixel totals only",
                               "where rounding decides which pixel of a valley is looked at, both answers are accepted"])
