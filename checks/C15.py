"""C15 record comparison: every single and pairwise difference RecordEq enumerates, on random records."""
import random
from vlib.core import *


def body(c):
    rng = random.Random(c.seed)
    cases = c.generate("RecordEq", f"SPECIFICATION Spec\nCONSTANT PairSpan = {200 if c.thorough else 20}\nINVARIANTS Right Emit\nPROPERTY Decides\nCHECK_DEADLOCK FALSE\n", timeout=800)
    out, pys = [], []
    for rep in range(3):
        for k in cases:
            if rep and len(k["diff"]) == 2 and not c.thorough:
                continue
            for _ in range(20 if not k["diff"] else 2 if len(k["diff"]) == 1 else 1):
                out.append(f"{k['type']} {rng.randint(1, 10**8)} {len(k['diff'])} {' '.join(k['diff'])}\n")
            if k["type"] in ("track", "volume", "sequence", "targpar", "control", "media"):
                pys.append(dict(type=k["type"], diff=k["diff"], seed=rng.randint(1, 10**8)))
    c.check_records("TraceRecordEq", build_harness("h_receq"), out)
    c.check_records_py("TraceRecordEq", "py_receq.py", pys)


main("C15", body, assumptions=["no NaN, no negative zero; further layers of multimedia parameters and lookup tables are documented not to be compared"])
