"""C01 frame window: FrameRing (design, refinement) + replay of every bounded behaviour."""
import random
from vlib.core import *


def gen(c, n, depth, frames, loses=()):
    return c.generate("GenRing", f"""SPECIFICATION GSpec
CONSTANTS N = {n}
Frames = {{{",".join(map(str, frames))}}}
Missing = {{4}}
Kinds = {{1,2,3,4,5,6}}
Depth = {depth}
Loses = {{{','.join(map(str, loses))}}}
INVARIANTS Emit TypeOK NoInvention
PROPERTIES ShiftsPermute ReadLocal WriteLocal
CHECK_DEADLOCK FALSE
""", timeout=600)


def sim(rng, n, length, lossy):
    """A long random behaviour of FrameRing (mirrors its enabling conditions)."""
    ring = [(0, 0)] * n
    disk = {f: (f, 1) for f in (1, 2, 3, 4)}
    gone = {1: set(), 2: set(), 3: set(), 4: set(range(1, 7))}
    ops = []
    while len(ops) < length:
        o = rng.choice("nnprrrwmx" if lossy else "nnprrrwm")
        a = b = 0
        if o == "n":
            ring = ring[1:] + ring[:1]
        elif o == "p":
            ring = ring[-1:] + ring[:-1]
        elif o == "r":
            a, b = rng.randint(1, 4), rng.randint(0, 1)
            d = disk[a]
            ring[-1] = (-1, 0) if gone[a] - (set() if b else {2, 3}) else (d[0], d[1] & b)
        elif o == "w":
            a = rng.randint(1, 4)
            if ring[0][0] <= 0:
                continue
            disk[a] = ring[0]
            gone[a] = set()
        elif o == "x":
            a, b = rng.randint(1, 4), rng.randint(1, 6)
            if b in gone[a]:
                continue
            gone[a].add(b)
        else:
            a = rng.randint(1, n)
            if ring[a - 1][0] <= 0:
                continue
            ring[a - 1] = (ring[a - 1][0], 1)
        ops.append([o, a, b])
    return ops


def body(c):
    exe = build_harness("h_fb")
    for n in (1, 2, 3, 4):
        c.model("FrameRingImpl", f"""SPECIFICATION Spec
CONSTANTS N = {n}
Frames = {{1,2}}
Missing = {{2}}
Kinds = {{2,4}}
INVARIANTS TypeOK NoInvention
PROPERTIES Refines ShiftsPermute ReadLocal WriteLocal Whole
CHECK_DEADLOCK FALSE
""")
    rng = random.Random(c.seed)
    runs = []
    for n, depth, fr in ((1, 4, (1, 4)), (2, 4, (1, 4)), (3, 4, (1, 2)), (4, 3, (1, 2, 4)), (4, 4, (1,))) + \
            (((2, 5, (1, 4)), (3, 5, (1, 4)), (4, 5, (1,))) if c.thorough else ()):
        runs += [(n, h) for h in gen(c, n, depth, fr)]
    for n, depth, fr in ((2, 3, (1,)), (1, 3, (1, 2)), (3, 3, (1,))):
        runs += [(n, h) for h in gen(c, n, depth, fr, range(1, 7))]
    exhaustive = len(runs)
    for _ in range(4000 if c.thorough else 500):
        n = rng.choice((1, 2, 3, 4, 4, 5, 7))
        runs.append((n, sim(rng, n, rng.choice((12, 40)), rng.random() < .5)))
    cases = [f"ring {n} {len(h)} " + " ".join(f"{o} {a} {b}" for o, a, b in h) + "\n" for n, h in runs]
    recs = c.drive_cases(exe, cases, timeout=300)
    idx = [i for i, r in enumerate(recs) if r is not None]
    live = [recs[i] for i in idx]
    c.sample({"operations": runs[0], "observed": live[0]})
    c.sample({"operations": runs[-1]})
    c.detail["runs_enumerated_from_model"] = exhaustive
    rej = c.validate("TraceRing", live)
    c.judge("TraceRing", live, rej, rerun=lambda i: c.drive(exe, cases[idx[i]])[0])


main("C01", body, assumptions=["the harness decodes each frame's whole content to an identity",
                               "windows of 1..5 and 7 frames, 3 cameras, 4 frame numbers"])
