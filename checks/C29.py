"""C29 the whole chain, from pictures to tracks, on particles far apart."""
import random
from vlib.core import *


def body(c):
    rng = random.Random(c.seed)
    c.model("ChainRun", "CONSTANTS Particles = {1, 2}\nCams = 2\nFrames = 2\nSPECIFICATION Spec\nINVARIANTS Recovered Free\nCHECK_DEADLOCK FALSE\n")
    if c.thorough:
        c.model("ChainRun", "CONSTANTS Particles = {1, 2}\nCams = 2\nFrames = 3\nSPECIFICATION Spec\nINVARIANTS Recovered Free\nCHECK_DEADLOCK FALSE\n")
    cases, no = [], 0
    for i in range(1500 if c.thorough else 240):
        cams = rng.choice((2, 3, 4, 4))
        n = rng.randint(1, 4 if cams == 2 else 7)
        no += 1
        t = rng.choice((1, 3, 4, 5, 6, 7))
        add = rng.random() < .5
        cases.append(f"{c.seed * 100000 + no} {cams} {n} {t} {rng.randint(0, 1)} {rng.choice((0, 0, 30))} {int(add)} {rng.choice((0, 25)) if add else 0}\n")
    c.check_records("TraceChain", build_harness("h_chain"), cases)


main("C29", body, assumptions=["few particles, at least 6 mm apart within any three frames, moving 0.6 to 1.1 mm a frame, seen for one frame or for three or more; pictures without noise"])
