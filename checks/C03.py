"""C03 order of tracking runs: TrackRun (design) + replay of every bounded history in the C library and, on files, in the Tracker."""
import random
from vlib.core import *
from vlib.tracks import Scene

CFG = """SPECIFICATION Spec
CONSTANTS First = {first}
Last = {last}
Depth = {depth}
Clear = TRUE
OnFiles = {onfiles}
Show = {pr}
INVARIANTS {inv}
CHECK_DEADLOCK FALSE
"""
INV = "Windows Inside Whole Results Counter Emit"


def ident(rec, why):
    return "stale-window" if why.replace("\\", "").strip() == '{"stale-window"}' else None


def body(c):
    cases = []
    for first, length in ((1, 2), (5, 3), (1, 4), (99, 5), (10001, 6)) + (((3, 9),) if c.thorough else ()):
        last = first + length - 1
        hist = c.generate("GenTrackRun", CFG.format(first=first, last=last, depth=6 if c.thorough else 5, onfiles="FALSE", pr="TRUE", inv=INV))
        cases += [f"hist {first} {last} {len(h)} {' '.join(h)}\n" for h in hist]
    rng = random.Random(c.seed)
    for _ in range(3000 if c.thorough else 300):       # longer sequences and histories
        first, length = rng.choice((0, 1, 7, 998, 10001)), rng.randint(2, 30)
        first = max(first, 1)
        ops, on = [], False
        for _ in range(rng.randint(3, 30)):
            op = rng.choice("rsssssssfFB" if on else "rrFB")
            on = op in "rs"
            ops.append(op)
        cases.append(f"hist {first} {first + length - 1} {len(ops)} {' '.join(ops)}\n")
    c.check_records("TraceRun", build_harness("h_run"), cases, ident=ident)

    # the Tracker on files
    jobs = []
    for first, length, depth in ((1, 2, 5), (9, 3, 5), (98, 4, 6), (10001, 6, 6)):
        last = first + length - 1
        hist = c.generate("GenTrackRun", CFG.format(first=first, last=last, depth=depth, onfiles="TRUE", pr="TRUE", inv=INV))
        hist.sort()
        for h in rng.sample(hist, min(len(hist), 600 if c.thorough else 40)):
            while True:
                s = Scene(rng, n=length, tracks=10, add=False, ghosts=0, ncams=rng.choice((2, 3)), amax=2, crowd=False)
                if all(parts for parts, _ in s.frames):
                    break
            s.first, s.last = first, last
            jobs.append(dict(job="hist", first=first, last=last, ops=h, imx=s.imx, imy=s.imy, cams=s.cams, dv=s.dv, dacc=s.dacc, dang=s.dang,
                             zlo=-25, zhi=25, frames=[[[[*p["x"], *p["corr"]] for p in parts], tg] for parts, tg in s.frames]))
    c.check_records_py("TraceRun", "py_tracker.py", jobs)


main("C03", body, assumptions=["histories respect the documented protocol: steps and finish only after restart, a backward run on files only after a complete forward run"])
