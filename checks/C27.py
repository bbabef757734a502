"""C27 what calls take they give back: memory and files, on success and failure."""
import random
from vlib.core import *

OPS = {"make": 0, "use": 1, "refill": 2, "drop": 3}
WRAP = ["malloc", "calloc", "realloc", "free", "fopen", "fclose"]


def body(c):
    cfg = f"SPECIFICATION Spec\nCONSTANTS Objs = {{{{1,2}}}}\nMaxBlocks = {5 if c.thorough else 4}\nMaxCalls = {5 if c.thorough else 4}\n" \
          "Sloppy = \"{}\"\nINVARIANTS NothingLost FilesClosed OneOwner NoneWithout\nCHECK_DEADLOCK FALSE\n"
    c.model("Ledger", cfg.format("none"), timeout=800)
    for s in ("file", "fail", "shell"):
        if c.model("Ledger", cfg.format(s), expect_ok=False).ok:
            raise ToolError(f"broken rule {s} not refuted")
    rng = random.Random(c.seed)
    hists = c.generate("GenLedger", f"SPECIFICATION Spec\nCONSTANTS Objs = {{1,2}}\nDepth = 4\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n")
    one = c.generate("GenLedger", f"SPECIFICATION Spec\nCONSTANTS Objs = {{1}}\nDepth = {7 if c.thorough else 5}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n")
    cases, n = [], 0
    for kind, per in enumerate((3, 1, 1, 1, 1, 2)):
        hs = one + hists
        if not c.thorough and kind in (3, 4):
            hs = rng.sample(hs, 500)
        for h in hs * per:
            n += 1
            cases.append(f"h {kind} {c.seed * 1000003 + n} {len(h)} " + " ".join(f"{OPS[a]} {o} {k}" for a, o, k in h) + "\n")
    c.check_records("TraceLedger", build_harness("h_ledger", wrap=WRAP), cases)
    # the same histories on objects of the bindings
    cases, n = [], 0
    for kind, per in enumerate((500, 150, 400, 120, 60, 250)):
        for h in rng.sample(one + hists, per * (4 if c.thorough else 1)):
            n += 1
            cases.append({"kind": kind, "seed": c.seed * 1000003 + n, "hist": h})
    c.check_records_py("TraceLedger", "py_ledger.py", cases, san=False, wrap=WRAP, preload="ledger_py", timeout=600)


main("C27", body, assumptions=["allocation itself does not fail"])
