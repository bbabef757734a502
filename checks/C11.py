"""C11 sorting: quicksort as a state machine (exhaustive), every small array replayed, random large ones."""
import random
from vlib.core import *


def body(c):
    c.model("Sorting", "SPECIFICATION Spec\nCONSTANTS MaxLen = 5\nKeys = {1,2,3}\nINVARIANTS InBounds Preserved SortedAtEnd\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n")
    arrays = c.generate("GenSorting", f"SPECIFICATION Spec\nCONSTANTS MaxLen = {7 if c.thorough else 5}\nKeys = {{1,2,3}}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n")
    rng = random.Random(c.seed)
    for n in [0, 1, 2, 3] + [rng.randint(4, 60) for _ in range(60)] + [rng.randint(60, 400) for _ in range(20)] + [3000] + ([20000] if c.thorough else []):
        span = rng.choice((1, 3, n + 1, 100000))
        k = [rng.randint(-span, span) for _ in range(n)]
        how = rng.randint(0, 4)
        if how == 0: k.sort()
        if how == 1: k.sort(reverse=True)
        if how == 2: k = k[: n // 2] + sorted(k[n // 2:])
        arrays.append(k)
    exe = build_harness("h_search")
    cases = [f"sort {kind} {len(a)} {' '.join(map(str, a))}\n" for kind in ("con", "y", "x", "f") for a in arrays
             if len(a) <= 81 or kind != "f"]      # link candidate lists hold at most 80
    c.check_records("TraceSorting", exe, cases)
    c.check_records_py("TraceSorting", "py_sort.py", [a for a in arrays if len(a) < 1000])


main("C11", body, assumptions=["keys are ordinary numbers (no NaN)"])
