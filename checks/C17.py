"""C17 camera fitting: OrientFit (protocol model), every flag combination replayed, C and Python fits validated."""
import random
from vlib.core import *

CFG = """SPECIFICATION {spec}
CONSTANTS Groups = {g}
MaxIter = 2
UseModes = {{{modes}}}
INVARIANTS {inv}
CHECK_DEADLOCK FALSE
"""


def case(rng, flags, use, kind="fit"):
    n = rng.choice((12, 16, 20, 40, 64)) if kind == "fit" else rng.choice((4, 4, 5, 6, 12, 40))
    noise = rng.choice((0, 0, 50)) if kind == "fit" else 0
    if rng.random() < .1:
        n = rng.randrange(0, 12)
    bits = sum(b << k for k, b in enumerate(flags))
    water = 1 if flags[10] and rng.random() < .9 else rng.randint(0, 1)
    dist = rng.randint(0, 1)
    bad = {i: rng.choice((1, 1, 2, 3, 4)) for i in range(n) if rng.random() < .2} if kind == "fit" and rng.random() < .6 else {}
    unused = [i for i in range(n) if i in bad or (use == 1 and i % 2 == 0) or (use == 2 and i % 2) or (use == 3 and i % 3 == 0)]
    scr = rng.sample(unused, rng.randint(0, len(unused))) if kind == "fit" else [rng.randrange(n)] if n >= 4 and rng.random() < .5 else []
    if kind == "fit" and n and rng.random() < .1:
        scr = sorted(set(scr) | {rng.randrange(n)})
    return (f"{kind} {rng.randrange(10 ** 6)} {water} {dist} {n} {bits} {use} {rng.choice((0, 1, 1, 3))} {rng.choice((0, 1, 1, 2))} {noise} "
            f"{len(bad)} {' '.join(f'{i} {b}' for i, b in bad.items())} {len(scr)} {' '.join(map(str, scr))}\n")


def body(c):
    c.model("OrientFit", CFG.format(spec="Spec", g=4, modes="0,1", inv="OnlyAsked NothingOnFailure"))
    combos = c.generate("GenOrient", CFG.format(spec="GenSpec", g=11, modes="0,1,2,3", inv="Emit"))
    rng = random.Random(c.seed)
    if not c.thorough:      # every combination of flags, one selection each
        rng.shuffle(combos)
        combos = list({tuple(f): (f, u) for f, u in combos}.values())
    cases = [case(rng, f, u) for f, u in combos for _ in range(3 if c.thorough else 1)]
    cases += [case(rng, [0] * 11, 0, "raw") for _ in range(3000 if c.thorough else 300)]
    cases += [f"deriv {rng.randrange(10 ** 6)}\n" for _ in range(200)]
    c.check_records("TraceOrient", build_harness("h_orient"), cases)
    names = ["cc", "xh", "yh", "k1", "k2", "k3", "p1", "p2", "scale", "shear"]
    jobs = []
    for f, u in rng.sample(combos, 400 if c.thorough else 120):
        n = rng.choice((2, 12, 20, 40))
        bad = {i: rng.choice((-999, -999, -1, i + 1, n - 1 - i)) for i in range(n) if rng.random() < .2} if rng.random() < .6 else {}
        bad = [[i, p] for i, p in bad.items() if i != p]
        jobs.append(dict(seed=rng.randrange(10 ** 6), kind="fit", n=n, flags=f[:10] + [0], names=[m for m, b in zip(names, f) if b], bad=bad,
                         dist=rng.randint(0, 1), water=rng.randint(0, 1), pert=rng.choice((0, 1, 2)), shift=rng.choice((0, 1, 1, 2)), layout=rng.choice(("c", "f", "rows2", "cols", "rev", "wide"))))
    for i in range(10):      # one parameter asked for, and it alone is off
        for w in (0, 1):
            f = [int(k == i) for k in range(11)]
            jobs.append(dict(seed=rng.randrange(10 ** 6), kind="fit", n=40, flags=f, names=[names[i]], bad=[], dist=1, water=w, pert=1, shift=1, layout="c", k3=2e-8))
    for _ in range(100 if c.thorough else 40):
        jobs.append(dict(seed=rng.randrange(10 ** 6), kind="raw", n=rng.choice((2, 4, 5, 6, 20)), flags=[0] * 11, names=[], bad=[], dist=rng.randint(0, 1), water=rng.randint(0, 1),
                         pert=rng.choice((0, 1, 2)), shift=0, layout=rng.choice(("c", "f", "rows2", "cols", "rev", "wide"))))
    c.check_records_py("TraceOrient", "py_orient.py", jobs)


main("C17", body, assumptions=["recovery is demanded from starts within 6 mm and 0.03 rad, with at least 12 well-spread points",
                               "tolerances: 0.06 pixel for recovery, 20 nm for residuals"])
