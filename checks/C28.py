"""C28 setting up a tracking run from files: every state of the four files (TLC), every place to cut, random contents."""
import random
from vlib.core import *

FILES = ("control", "track", "volume", "sequence")


def e(k):
    return repr(k / 8)


def contents(rng, cams):
    up = lambda lo, hi: e(rng.randint(lo, hi))
    ctl = [str(cams)]
    for i in range(cams):
        ctl += [f"img/c{i}{'x' * rng.choice((0, 0, 30, 200))}", f"cal/{i}{rng.choice('abc')}.tif"]
    ctl += [str(rng.randint(0, 1)) for _ in range(3)] + [str(rng.randint(64, 500)), str(rng.randint(64, 500)), "0.125", rng.choice(("0.125", "0.25")),
            str(rng.randint(0, 2)), e(8), up(8, 14), up(8, 14), up(1, 90)]
    d = sorted(rng.sample(range(-400, 400), 6)) if rng.random() < .5 else [rng.randint(-400, 400) for _ in range(6)]
    trk = [e(x) for x in d] + [up(0, 1600), up(0, 400), str(rng.randint(0, 1))]
    z = [rng.randint(-400, 0) for _ in range(2)]
    vol = [up(-400, -8), e(z[0]), e(z[0] + rng.randint(8, 300)), up(8, 400), e(z[1]), e(z[1] + rng.randint(8, 300))] + [up(0, 800) for _ in range(6)]
    a = rng.choice((0, 1, 7, 10000, 10095))
    seq = [f"img/{rng.choice('pqr')}{i}{'_' * rng.choice((0, 1, 100, 180))}." for i in range(cams)] + [str(a), str(a + rng.choice((0, 1, 5, 2000)))]
    return dict(control=ctl, track=trk, volume=vol, sequence=seq)


def case(n, rng, cams, keep):
    """keep: per file, None whole, -1 missing, or how many values stay (function of the whole count)."""
    t = contents(rng, cams)
    s = f"{n} {cams} {rng.choice((1, 7, 123, 9999, 10095, 123456))}"
    for f in FILES:
        k = keep.get(f)
        s += f" {len(t[f]) if k is None else k(len(t[f])) if callable(k) else k} {len(t[f])} {' '.join(t[f])}"
    return s + "\n"


def body(c):
    rng = random.Random(c.seed)
    starts = c.generate("Setup", "SPECIFICATION Spec\nINVARIANTS Right OnlyTaken Emit\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n")
    cases = []
    add = lambda cams, keep: cases.append(case(len(cases), rng, cams, keep))
    for cams in (1, 2, 3, 4):
        for s in starts:
            add(cams, {f: {"missing": -1, "cut": lambda n: rng.randint(0, n - 1)}.get(s[f]) for f in FILES})
        for f, n in (("control", 13 + 2 * cams), ("track", 9), ("volume", 12), ("sequence", cams + 2)):
            for k in range(n):
                add(cams, {f: k})
    for i in range(2000 if c.thorough else 250):
        add(rng.randint(1, 4), {})
    c.check_records("TraceSetup", build_harness("h_setup"), cases)


main("C28", body, assumptions=["files that start well but are cut between two values, not inside one"])
