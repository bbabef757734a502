"""C06 backward tracking: whole backward runs of the real code against Track (BackwardStep, Joins)."""
import random
from vlib.core import *
from vlib.tracks import Scene


def body(c):
    rng = random.Random(c.seed)
    cases = []
    for _ in range(15000 if c.thorough else 900):
        s = Scene(rng, "b", tracks=rng.choice((2, 4, 6, 9, 12)), crowd=rng.choice((None, None, "local")))
        s.link(rng.choice((.3, .6, .9)))
        cases.append(s.text())
    # rival predecessors close to where one is expected, some of which have predecessors of their own
    for _ in range(15000 if c.thorough else 900):
        s = Scene(rng, "b", crowd="back", add=False, n=rng.choice((3, 4, 4, 5)))
        s.link(rng.choice((.5, .8, .95)))
        cases.append(s.text())
    c.check_records("TraceTrack", build_harness("h_track"), cases)


main("C06", body, assumptions=["cameras are far away (parallel projection); the links a backward run starts from are mutual and none precedes the first frame"])
