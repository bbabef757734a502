"""C13 image preparation: integer reference semantics; small images exhaustively, random ones of every shape."""
import random
from vlib.core import *


def filt(rng):
    k = rng.randint(0, 5)
    if k == 0:
        return [4] * 9
    if k == 1:
        return [rng.randint(0, 4) * 4 for _ in range(9)]
    if k == 2:                                       # sharpening: negative around the centre
        n = rng.randint(1, 4)
        return [-4 * n] * 4 + [4 * (8 * n + rng.randint(-2, 9))] + [-4 * n] * 4
    if k == 3:
        return [rng.randint(-12, 20) for _ in range(9)]
    if k == 4:
        return [rng.choice((1, 2, 3, 400)) for _ in range(9)]
    return [4 * (i == rng.randint(0, 8)) * rng.randint(1, 3) + (i == 4) for i in range(9)]


def img(rng, n):
    k = rng.randint(0, 3)
    if k == 0:
        return [rng.randint(0, 255) for _ in range(n)]
    if k == 1:
        return [rng.choice((0, 255)) for _ in range(n)]
    if k == 2:
        return [rng.choice((0, 0, 0, 1, 7, 8, 254, 255)) for _ in range(n)]
    v = rng.randint(0, 255)
    return [v] * n


OPS = ("subtract", "mask", "copy", "mean", "filter", "blur", "split", "prepare", "prepare", "prepare", "badfile")


def rand_case(rng, op, top):
    w, h = rng.randint(3, top), rng.randint(3, top)
    s = rng.randint(0, (min(w, h) - 1) // 2)
    k = dict(op=op, w=w, h=h, s=s, sel=rng.choice((0, 0, 1, 2)), filt=0, file=0, f=filt(rng), a=img(rng, w * h))
    if op == "prepare":
        if k["sel"] and k["h"] % 2:
            k["sel"] = 0
        k["filt"] = rng.randint(0, 2)
        k["file"] = 1 if k["filt"] == 2 else rng.randint(0, 1)
    if op == "badfile":
        k["filt"], k["file"] = 2, rng.choice((0, 2, 3))
    return k


def text(k, b=()):
    return f"{k['op']} {k['w']} {k['h']} {k['s']} {k['sel']} {k['filt']} {k['file']} {' '.join(map(str, k['f']))} {' '.join(map(str, k['a']))} {' '.join(map(str, b))}\n"


def body(c):
    for w, s in ((7, 2), (6, 1), (5, 2), (4, 0)) + (((9, 3), (8, 3)) if c.thorough else ()):
        c.model("ImageOps", f"SPECIFICATION Spec\nCONSTANTS W = {w}\nSpan = {s}\nGreys = {{0,5,7}}\nINVARIANTS SameAsDefinition NeverBrighter\nCHECK_DEADLOCK FALSE\n", timeout=800)
    rng = random.Random(c.seed)
    small = c.generate("GenImages", f"SPECIFICATION Spec\nCONSTANTS N = {12 if c.thorough else 9}\nGreys = {{0,255}}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n")
    cases = []
    for px in small:
        for op, s in (("blur", 1), ("mean", 0), ("prepare", rng.randint(0, 1))):
            k = dict(op=op, w=3, h=len(px) // 3, s=s, sel=0, filt=rng.randint(0, 1), file=0, f=[4] * 9, a=px)
            cases.append(text(k))
    for i in range(12000 if c.thorough else 1600):
        op = OPS[i % len(OPS)]
        k = rand_case(rng, op, 14 if c.thorough else 10)
        b = ()
        if op in ("subtract", "mask"):
            b = [min(255, max(0, p + rng.randint(-3, 3))) if rng.random() < .5 else rng.choice((0, 1, 255)) for p in k["a"]]
        cases.append(text(k, b))
    c.check_records("TraceImage", build_harness("h_image"), cases)
    pys = []
    for i in range(600 if c.thorough else 120):
        k = rand_case(rng, "badfile" if i % 8 == 0 else "prepare", 8)
        if k["file"] == 3:
            k["file"] = 2
        pys.append(dict(k, layout=rng.randint(0, 2), given=rng.randint(0, 2)))
    c.check_records_py("TraceImage", "py_image.py", pys)


main("C13", body, assumptions=["box width at most the image size; filter weights in quarters", "where the 3x3 filters leave an output pixel alone (first and last line) nothing is claimed"])
