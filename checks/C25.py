"""C25 the observed volume: hull of the corner rays between the depth limits, for any cameras."""
import random
from vlib.core import *


def body(c):
    c.model("Volume", f"SPECIFICATION Spec\nCONSTANTS Cams = {{{'1,2,3' if c.thorough else '1,2'}}}\nCoords = {{0,1,2,3{',4' if c.thorough else ''}}}\n"
            "INVARIANTS HoldsTheSeen HoldsTheStart Tight WhateverTheOrder\nCHECK_DEADLOCK FALSE\n", timeout=800)
    rng, s = random.Random(c.seed), c.seed * 100000
    cases = [f"vol {s + i} {1 + i % 4} {rng.randint(0, 1)} {int(rng.random() < .35)} {rng.choice([0, 0, 1, 1, 2, 3])}\n" for i in range(12000 if c.thorough else 1500)]
    c.check_records("TraceVolume", build_harness("h_volume"), cases)


main("C25", body, assumptions=["cameras on the air side of one window; corner rays of distorted cameras judged to one per cent (the code corrects them in one step)"])
