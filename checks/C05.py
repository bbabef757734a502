"""C05 forward tracking: whole runs of the real code against Track, step by step."""
import random
from vlib.core import *
from vlib.tracks import Scene


def ident(rec, why):
    """Only the last step of a run held to an empty look-ahead."""
    return "stale-lookahead" if rec["stale"] == 0 and why.replace("\\", "") == f'{{"links@{rec["last"] - 1}"}}' else None


def rules(rng):
    """Displacements on, just inside and just outside each velocity bound; turns of every kind."""
    v = [rng.randint(-8, 8) for _ in range(3)]
    dv = [50 * x + d for x in v for d in (rng.choice((-50, -1, 0, -170)), rng.choice((50, 1, 0, 170)))] if rng.random() < .7 else [50 * rng.randint(-8, 8) for _ in range(6)]
    if rng.random() < .6:       # one bound decides
        dv = [50 * x + d for x in v for d in (-100, 120)]
        k = rng.randrange(6)
        dv[k] = 50 * v[k // 2] + (rng.choice((0, 0, 1, -1)))
    m = rng.choice((2, 6, 12))
    a, b, e = ([rng.randint(-m, m) for _ in range(3)] for _ in range(3))
    if rng.random() < .4:       # straight on, straight back, or at rest
        k = rng.choice((-2, -1, 0, 1, 2))
        e = [x + k * (y - x) for x, y in zip(a, b)]
    return "rule " + " ".join(map(str, v + dv + a + b + e)) + "\n"


def body(c):
    rng = random.Random(c.seed)
    c.check_records("TraceRules", build_harness("h_rules"), [rules(rng) for _ in range(20000 if c.thorough else 4000)])
    cases = [Scene(rng, add=False).text() for _ in range(10000 if c.thorough else 400)]
    cases += [Scene(rng, add=False, crowd="local", n=rng.choice((3, 3, 4, 5))).text() for _ in range(10000 if c.thorough else 900)]
    # fast tracks, many of them close together; two-camera scenes where single sightings matter
    cases += [Scene(rng, add=False, tracks=rng.choice((8, 12)), crowd=True, n=rng.choice((3, 4, 5))).text() for _ in range(4000 if c.thorough else 150)]
    # the known finding: what lies beyond the last frame
    demo = [Scene(random.Random(k), add=False, crowd="local", n=5) for k in (143, 253, 274, 282)]
    demo += [Scene(random.Random(k), add=False, crowd=True, tracks=12, n=4) for k in (74, 118, 166, 228, 240)]
    for s in demo:
        s.stale = 0
        cases.append(s.text())
    c.check_records("TraceTrack", build_harness("h_track"), cases, ident=ident)


main("C05", body, assumptions=["cameras are far away (parallel projection) so that projections are exact integers; particles lie on a whole-millimetre grid",
                               "decisions closer than the rounding margins of the specification (3 um, 0.02 gon, 0.12 %) may go either way"])
