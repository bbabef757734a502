"""C07 added particles: forward and backward runs with addition against Track, and the bookkeeping on dense random scenes (TraceLinks)."""
import random
from vlib.core import *
from vlib.tracks import Scene, dense


def body(c):
    rng = random.Random(c.seed)
    cases = [Scene(rng, add=True, lost=rng.choice((.1, .25, .4)), ncams=rng.choice((2, 3, 4, 4)), crowd=rng.choice((False, False, True, "local", "local"))).text()
             for _ in range(12000 if c.thorough else 700)]
    for _ in range(8000 if c.thorough else 400):
        s = Scene(rng, "b", add=True, n=rng.choice((3, 4, 5, 6)), lost=rng.choice((.1, .25, .4)), ncams=rng.choice((2, 3, 4, 4)), crowd=rng.choice((None, None, "local")))
        s.link(rng.choice((.6, .9, 1)))
        cases.append(s.text())
    cases += [Scene(rng, add=False, lost=.3, ncams=4).text() for _ in range(100)]
    c.check_records("TraceTrack", build_harness("h_track"), cases)
    c.check_records("TraceLinks", build_harness("h_links"), [dense(rng, c.thorough, add=rng.random() < .85, drop=(20, 40, 40, 60)) for _ in range(4000 if c.thorough else 240)],
                    consts='CONSTANT Part = "added"')


main("C07", body, assumptions=["positions of added particles are exact to 2 um in scenes with far cameras; with near cameras only the bookkeeping is judged"])
