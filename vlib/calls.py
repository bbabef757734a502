"""Random element-wise library calls (harness h_calls), and families of calls that share most of their arguments."""
import math

LAYOUTS = ("c", "f", "rows2", "cols", "rev", "wide")


TRANSFORMS = ("to_metric", "to_pixel", "to_corrected", "to_distorted", "to_flat")


def camera(rng, i, plain):
    x, y, z = rng.choice(((-120, -90, 400), (120, -100, 410), (-110, 110, 420), (130, 95, 430)))
    x, y, z = x + rng.uniform(-9, 9), y + rng.uniform(-9, 9), z + rng.uniform(-9, 9)
    r = (x * x + y * y + z * z) ** .5
    u = lambda a: 0. if plain else rng.uniform(-a, a)
    return [x, y, z, math.atan2(-y, z) + u(.01), math.asin(x / r) + u(.01), u(3), u(.3), u(.3), rng.uniform(20, 60), u(1e-4), u(1e-6), u(1e-8), u(1e-4), u(1e-4),
            1 + u(.01), u(.01), u(5), u(5), rng.uniform(50, 120)]


def call(rng, fn):
    cams = {"flat": 1, "image": 1, "single": 1, "curve": 2, "matched": 1, **dict.fromkeys(TRANSFORMS, 1)}.get(fn) or rng.randint(2, 4)
    k = dict(fn=fn, cams=[camera(rng, i, rng.random() < .3) for i in range(cams)], mm=[1., rng.choice((1., 1.46, 1.33)), rng.choice((0., 5., 8.)), rng.choice((1., 1.33))],
             img=[1280, 1024, .01, .01 if rng.random() < .5 else .012], vol=[-30., rng.choice((30., -30., 17.)), -40., 40.], p1=0., p2=0., alt=rng.randint(0, 1),
             layouts=[rng.choice(LAYOUTS) for _ in range(2)], n=rng.randint(0, 4), how=[])
    k["m"] = 3 if fn in ("flat", "image") else 2 * cams if fn in ("position", "dumbbell") else 2
    if fn == "curve":
        k["n"], k["p1"] = 1, float(rng.choice((1, 2, 2, 3, 5, 9)))
    if fn == "dumbbell":
        k["n"], k["p1"], k["p2"], k["how"] = 2 * rng.randint(1, 4), rng.uniform(1, 30), rng.choice((0., .5, 1., 2.)), ["c"]
    if fn == "to_flat":
        k["p1"] = rng.choice((1e-5, 1e-3, 1e-8))
    s = 30 if k["m"] == 3 else 1000 if fn in ("curve", "matched", "to_metric") else 5
    k["a"] = [rng.uniform(0 if s == 1000 else -s, s) for _ in range(k["n"] * k["m"])]
    if fn == "matched":
        k.update(p1=rng.choice((1e-5, 1e-3)), reset=rng.randint(0, 1), pnr=rng.sample(range(900), k["n"]), order=rng.sample(range(k["n"]), rng.randint(0, k["n"])))
    return k


NAMES = ("flat", "image", "position", "single", "dumbbell", "curve", "matched") + TRANSFORMS


def line(k):
    w = [k["fn"], len(k["cams"])] + k["mm"] + k["img"] + k["vol"] + [x for cam in k["cams"] for x in cam] + [k["p1"], k["p2"], k["n"], k["m"]] + list(k["a"])
    return " ".join(repr(x) if isinstance(x, float) else str(x) for x in w) + "\n"


def family(rng):
    """One call, and the same with one argument changed."""
    k = call(rng, rng.choice(NAMES))
    if k["n"] == 0:
        return family(rng)
    out = [k]
    for _ in range(rng.randint(2, 5)):
        x = dict(k, mm=k["mm"][:], img=k["img"][:], vol=k["vol"][:], cams=[c[:] for c in k["cams"]], a=k["a"][:])
        what = rng.choice(("mm", "mm", "cam", "cam", "cam", "img", "vol", "point"))
        if what == "mm":
            i = rng.randrange(4)
            x["mm"][i] += rng.choice((.1, .05)) if i != 2 else 2
        elif what == "cam":
            cam, i = rng.choice(x["cams"]), rng.randrange(19)
            cam[i] += (3., 3., 3., .01, .01, .01, .1, .1, 1., 1e-5, 1e-7, 1e-9, 1e-5, 1e-5, .01, .01, 1., 1., 3.)[i]
        elif what == "img":
            i = rng.randrange(4)
            x["img"][i] += (16, 16, .001, .001)[i]
        elif what == "vol":
            i = rng.randrange(4)
            x["vol"][i] += (-2., 2., -2., 2.)[i]
        else:
            i = rng.randrange(len(x["a"]))
            x["a"][i] += .25
        out.append(x)
    return out
