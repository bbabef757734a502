"""C18 pixel and metric coordinates: whole-number reference, TLC-enumerated sensors."""
import random
from vlib.core import *


def points(rng, s, n):
    far = lambda top: rng.choice((rng.randint(0, 16 * top), 16 * rng.randint(0, top), 8 * top, 0, 16 * top, rng.randint(-4000, 16 * top + 4000)))
    return [(far(s["imx"]), far(s["imy"])) for _ in range(n)]


def body(c):
    c.model("PixMetric", "SPECIFICATION Spec\nCONSTANTS Sizes = {1,2,7,640}\nPitches = {1,5,9}\nCoords = {0,1,8,16,29,5120}\nINVARIANTS RoundTrip Centre Grows\nCHECK_DEADLOCK FALSE\n")
    sizes = "{1,2,3,64,767,1008,1024,4096}" if c.thorough else "{1,64,767,1008,1280}"
    sensors = c.generate("GenPix", f"SPECIFICATION GenSpec\nCONSTANTS Sizes = {sizes}\nPitches = {{1,5,8,12,17}}\nCoords = {{0}}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n")
    rng = random.Random(c.seed)
    text, py = [], []
    reps = 3 if c.thorough else 1
    lays = ("c", "f", "rows2", "cols", "rev", "wide")
    for s in sensors:
        for _ in range(reps):
            n = rng.choice((1, 2, 9, 24))
            p = points(rng, s, n)
            mul = [(rng.randint(-30000, 30000), 2 * rng.randint(-15000, 15000)) for _ in range(n)]
            text.append(f"grid {s['imx']} {s['imy']} {s['px']} {s['py']} {s['mode']} {n} " + " ".join(f"{a[0]} {a[1]} {m[0]} {m[1]}" for a, m in zip(p, mul)) + "\n")
            if rng.random() < (.5 if c.thorough else .7):
                py.append(dict(s, pts=p, mul=mul, inl=rng.choice(lays), outl=rng.choice((None, None, "same") + lays)))
    for i in range(3000 if c.thorough else 600):
        n = rng.randint(1, 6)
        # the pitch of the two axes independent; metres of sensor never needed
        text.append(f"trip {rng.randint(1, 5000)} {rng.randint(1, 5000)} {rng.randint(1000, 300000)} {rng.randint(1000, 300000)} {rng.randint(0, 2)} {n} "
                    + " ".join(f"{rng.randint(-100000, 5000000)} {rng.randint(-100000, 5000000)} {rng.randint(-20000, 20000)} {rng.randint(-20000, 20000)}" for _ in range(n)) + "\n")
    py.append(dict(sensors[0], pts=[(3, 4)], mul=[(1, 2)], inl="c", outl=None))
    c.check_records("TracePix", build_harness("h_pix"), text)
    c.check_records_py("TracePix", "py_pix.py", py)


main("C18", body, assumptions=["image sizes up to 5000, pitches of 0.1 to 300 micrometres; dyadic pitches are judged exactly, others by the round trip to two millionths of a pixel"])
