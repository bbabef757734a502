"""C12 threshold segmentation: flood-fill specification, all small images and random larger ones through targ_rec and Python."""
import random
from vlib.core import *
from vlib.shapes import htree

WIDE = [1, 10 ** 6, 1, 10 ** 4, 1, 10 ** 4, 0]
HIGHLIM = [1, 10 ** 6, 1, 1000, 1, 1000, 0]


def q(w, h, th, d, x0=0, x1=None, y0=0, y1=None):
    return f"[w |-> {w}, h |-> {h}, thres |-> {th}, disco |-> {d}, x0 |-> {x0}, x1 |-> {w if x1 is None else x1}, y0 |-> {y0}, y1 |-> {h if y1 is None else y1}]"


def wrap(par, base, inner):
    return {"SegRun.tla": f"---- MODULE SegRun ----\nEXTENDS {base}\nK == {par}\nInn == {inner}\n====\n"}


def inner(w, h):
    return "{" + ",".join(str(y * w + x) for y in range(1, h - 1) for x in range(1, w - 1)) + "}"


def case(kind, w, h, cam, th, d, win, lim, px, want=()):
    return f"{kind} {w} {h} {cam} {th} {d} {' '.join(map(str, win))} {' '.join(map(str, lim))} {' '.join(map(str, px))} {' '.join(map(str, want))}\n"


def rand_image(rng, w, h):
    kind = rng.randint(0, 3)
    if kind == 0:       # noise from few greys
        g = [rng.randint(0, 255) for _ in range(rng.randint(2, 5))]
        return [rng.choice(g) for _ in range(w * h)]
    if kind == 1:       # noise
        return [rng.randint(0, 255) for _ in range(w * h)]
    # blobs: cones and plateaus on a dark ground
    px = [rng.randint(0, 12) for _ in range(w * h)]
    for _ in range(rng.randint(1, 6)):
        cx, cy, top, sl = rng.randint(0, w - 1), rng.randint(0, h - 1), rng.randint(30, 255), rng.randint(0, 70)
        rad = rng.randint(0, 3)
        for y in range(h):
            for x in range(w):
                dist = abs(x - cx) + abs(y - cy) if kind == 2 else max(abs(x - cx), abs(y - cy))
                if dist <= rad:
                    px[y * w + x] = max(px[y * w + x], top - sl * dist + (rng.randint(-4, 4) if rng.random() < .3 else 0))
    return [min(255, max(0, p)) for p in px]


def rand_lim(rng):
    lim = []
    for top in (30, 8, 8):
        lo = rng.choice((1, 1, 1, 2, 3))
        lim += [lo, rng.choice((lo, lo + 2, top, 10 ** 4))]
    return lim + [rng.choice((0, 0, 100, 255, 600))]


def rand_case(rng, top):
    w, h = rng.randint(3, top), rng.randint(3, top)
    win = [0, w, 0, h]
    if rng.random() < .4:
        win = [rng.randint(-1, w // 2), rng.randint(w // 2 + 1, w + 1), rng.randint(-1, h // 2), rng.randint(h // 2 + 1, h + 1)]
    return dict(w=w, h=h, cam=rng.randint(0, 3), thres=rng.choice((0, 5, 12, 20, 60, 120)), disco=rng.choice((0, 1, 5, 20, 60, 255)), win=win,
                lim=rng.choice((HIGHLIM, rand_lim(rng))), img=rand_image(rng, w, h))


def body(c):
    inv = "INVARIANTS Disjoint BrightAndInside Connected Confluent BrightestTaken\nCHECK_DEADLOCK FALSE\n"
    for d in (0, 1, 4):
        par = q(5, 5, 2, d)
        cells = inner(5, 5) if c.thorough else "{6,7,8,11,12,13,16}"
        c.model("SegRun", f"SPECIFICATION Spec\nCONSTANTS Q <- K\nInner <- Inn\nGreys = {{0,3,4,6}}\n" + inv if c.thorough and d == 1 else
                f"SPECIFICATION Spec\nCONSTANTS Q <- K\nInner <- Inn\nGreys = {{0,3,5}}\n" + inv, files=wrap(par, "Segment", cells), timeout=800)
    rng = random.Random(c.seed)
    cases = []
    imgs = []
    # inner pixels vary, the border is bright
    gens = [(5, 5, "{6,7,8,11,12,13}", "{0,5,6,9}")] + ([(5, 5, inner(5, 5), "{0,5,9}"), (6, 4, inner(6, 4), "{0,5,6}")] if c.thorough else [(6, 4, inner(6, 4), "{0,6}")])
    for w, h, cells, greys in gens:
        for px in c.generate("SegRun", f"SPECIFICATION GenSpec\nCONSTANTS Q <- K\nInner <- Inn\nGreys = {greys}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n",
                             files=wrap(q(w, h, 4, 0), "GenSegment", cells), timeout=800):
            imgs.append((w, h, px))
    for w, h, px in imgs:
        cases.append(case("image", w, h, rng.randint(0, 3), rng.choice((4, 4, 5)), rng.choice((0, 1, 3, 100)), [0, w, 0, h], HIGHLIM if rng.random() < .7 else rand_lim(rng), px))
    for _ in range(12000 if c.thorough else 1500):
        k = rand_case(rng, 16 if c.thorough else 12)
        cases.append(case("image", k["w"], k["h"], k["cam"], k["thres"], k["disco"], k["win"], k["lim"], k["img"]))
    exe = build_harness("h_segment")
    c.check_records("TraceSegment", exe, cases)
    # a growth front wider than any fixed queue
    n, lum = htree(12)
    px = [0] * (n * n)
    for (x, y), d in lum.items():
        px[y * n + x] = 255 - d
    xs, ys = [x for x, _ in lum], [y for _, y in lum]
    c.check_records("TraceSegment", exe, [case("wide", n, n, 0, 0, 3, [0, n, 0, n], [1, 10 ** 6, 1, 9999, 1, 9999, 0], px,
                                               [len(lum), sum(px), max(xs) - min(xs) + 1, max(ys) - min(ys) + 1])])
    pys = [dict(rand_case(rng, 10), layout=rng.randint(0, 2), full=int(rng.random() < .5)) for _ in range(800 if c.thorough else 150)]
    pys += [dict(w=w, h=h, grey=rng.randint(9, 255)) for w, h in ((8, 6), (2 * rng.randint(150, 160), 300))]
    c.check_records_py("TraceSegment", "py_segment.py", pys)


main("C12", body, assumptions=["thresholds 0..254, images at most 16x16 beside one 259x259 shape and one with more than 20480 spots; window inside or around the image"])
