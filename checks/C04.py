"""C04 link discipline: Linking (design, all cost assignments) + stored links of runs on dense random scenes (TraceLinks)."""
import random
from vlib.core import *
from vlib.tracks import dense

CFG = """SPECIFICATION Spec
CONSTANTS N = {n}
Frames = {f}
Costs = {{{costs}}}
TakeBack = TRUE
INVARIANTS Mutual OneToOne BestWins OnlyWanted ForwardKept
CHECK_DEADLOCK FALSE
"""


def body(c):
    for n, f, costs in ((2, 4, "1,2,3"), (3, 3, "1,2")) + (((3, 3, "1,2,3"), (2, 5, "1,2,3")) if c.thorough else ()):
        c.model("Linking", CFG.format(n=n, f=f, costs=costs), timeout=840)
    # the design without taking the link back must be refuted (the invariants are not vacuous)
    r = c.model("Linking", CFG.format(n=2, f=2, costs="1,2").replace("TakeBack = TRUE", "TakeBack = FALSE"), expect_ok=False)
    if r.ok:
        raise ToolError("Linking accepts a design that leaves two successors")
    rng = random.Random(c.seed)
    c.check_records("TraceLinks", build_harness("h_links"), [dense(rng, c.thorough) for _ in range(4000 if c.thorough else 240)], consts='CONSTANT Part = "links"')


main("C04", body, assumptions=["decision values are read from the candidate lists the step leaves in the window"])
