"""C02 frame files: write/read histories against FrameFiles."""
import random
from vlib.core import *


def num(rng, lim, unit):
    """An integer that is not exactly half way between two representable file values."""
    while True:
        v = rng.choice((rng.randint(-lim, lim), rng.randint(-3 * unit, 3 * unit), 0))
        if abs(v) % unit * 2 != unit:
            return v


def part(rng, big):
    ix = lambda *extra: rng.choice(extra + (rng.randint(0, 9), rng.randint(0, big)))
    return [num(rng, 900000000, 1000) for _ in range(3)] + [ix(-1), ix(-2), rng.randint(0, 4)] + \
           [ix(-1) for _ in range(4)]


def targ(rng, big, i):
    return [i, abs(num(rng, 400000000, 10)), num(rng, 400000000, 10)] + \
           [rng.randint(0, rng.choice((9, 99999, 1000000))) for _ in range(4)] + [rng.choice((-1, rng.randint(0, big)))]


def flat(x):
    return " ".join(" ".join(map(str, r)) for r in x)


def pad(rng, n=None, kinds=None):
    """How much longer the names are made; with n, near where the target file's name stops fitting."""
    if rng.random() < .7:
        return 0
    if n is None or rng.random() < .4:
        return rng.choice((100, 198, 256, 300, 4000))
    return (255 - 11 - (max(4, len(str(n))) if n > 0 else 0)) // 2 * 2 + rng.choice((-4, -2, 0, 2, 4))


def history(rng, nops, nmax, big, nums, cap):
    cams = rng.randint(1, 4)
    rcap = cap if rng.random() < .6 else rng.randint(1, nmax)
    has = {}            # n -> set of intact kinds (mirror, only to keep operations meaningful)
    ops = []
    while len(ops) < nops:
        n = rng.choice(nums)
        o = rng.choice("wwrrrrc")
        st = has.get(n)
        if o == "w":
            prio = rng.randint(0, 1)
            parts = [part(rng, big) for _ in range(rng.randint(1, nmax))]
            targs = [[targ(rng, big, i) for i in range(rng.choice((0, 1, rng.randint(0, nmax))))] for _ in range(cams)]
            p = pad(rng)
            ops.append(f"w {n} {prio} {p} {len(parts)} {flat(parts)} " + " ".join(f"{len(t)} {flat(t)}" for t in targs))
            if p > 230:
                continue
            s = {"rt": "ok", "link": "ok", **{f"t{c}": "ok" for c in range(cams)}}
            s["prio"] = "ok" if prio else (st or {}).get("prio", "none")
            # an old priority file may be for a different number of particles: make reads of it unambiguous
            if not prio:
                s["prio"] = "stale" if s["prio"] in ("ok", "stale") else s["prio"]
            has[n] = s
        elif o == "r":
            links, prio = rng.randint(0, 1), rng.randint(0, 1)
            if prio and (st or {}).get("prio") == "stale":
                prio = 0
            ops.append(f"r {n} {links} {prio} {pad(rng, n)}")
        elif st:
            kind = rng.choice(("rt", "link", "prio", "targ"))
            cam = rng.randrange(cams)
            key = f"t{cam}" if kind == "targ" else kind
            if st.get(key) != "ok" or rng.random() < .4:
                continue
            how, v = rng.choice((("none", 0), ("cut", 0), ("cut", 2), ("cut", 1)))
            if kind == "rt" and v == 1:
                v = 0        # the particle count is taken from the rows present, not from the header
            st[key] = how
            ops.append(f"c {n} {kind} {cam} {how} {v}")
    return f"files {cams} {len(ops)} {cap} {rcap}\n" + "\n".join(ops) + "\n"


def target_history(rng, cap):
    ops, known = [], []
    for _ in range(8):
        n = rng.choice((0, 0, 1, 7, 99, 9999, 10001, 123456, -3))
        if n == -3 and 0 in known or n == 0 and -3 in known:
            continue          # both name the same file
        if rng.random() < .5:
            t = [targ(rng, 20000, i) for i in range(rng.randint(0, 5))]
            ops.append(f"wt {n} {pad(rng, n)} {len(t)} {flat(t)}")
            known.append(n)
        else:
            known.append(n)
            ops.append(f"rt {n} {pad(rng, n)}")
    return f"files 1 {len(ops)} {cap} {cap}\n" + "\n".join(ops) + "\n"


EMPTY = "files 1 2 4 4\nw 5 0 0 0 1 0 100000 200000 1 1 1 1 -1\nr 5 0 0 0\n"


def body(c):
    c.model("MCFrameFiles", "SPECIFICATION Spec\nINVARIANTS RoundTrip Idempotent\nPROPERTY Isolation\nCHECK_DEADLOCK FALSE\n")
    exe = build_harness("h_fb")
    rng = random.Random(c.seed)
    k = 10 if c.thorough else 1
    cases = [history(rng, rng.randint(4, 14), rng.choice((2, 5, 12)), 20000, rng.sample((1, 2, 9, 10, 11, 101, 999, 9999, 10001, 12345), 3), 64)
             for _ in range(260 * k)]
    cases += [target_history(rng, 64) for _ in range(120 * k)]
    cases += [f"files {1 + i % 4} 2 {n + 8} {n}\nw 3 1 0 {n} " + flat(part(rng, 19999) for _ in range(n)) + " " +
              " ".join(f"{m} {flat(targ(rng, 19999, i) for i in range(m))}" for m in [rng.randint(1, n) for _ in range(1 + i % 4)]) + "\nr 3 1 1 0\n"
              for i, n in enumerate([100, 1001] + ([10050, 3000] if c.thorough else [2500]))]
    recs = c.drive_cases(exe, cases, timeout=300)
    idx = [i for i, r in enumerate(recs) if r is not None]
    live = [recs[i] for i in idx]
    if live:
        c.sample(live[0])
    rej = c.validate("TraceFrameFiles", live)
    c.judge("TraceFrameFiles", live, rej, rerun=lambda i: c.drive(exe, cases[idx[i]])[0])
    # recorded finding: a frame without particles
    e = c.drive(exe, EMPTY)
    r = c.validate("TraceFrameFiles", e)
    if r:
        c.violation({"spec": "TraceFrameFiles", "record": e[0], "rejected_because": r[0][1], "input": EMPTY}, ident="empty-frame")


main("C02", body, assumptions=["frames with at least one particle (empty frames: see known finding empty-frame)",
                               "values within the printed field widths' precision, not exactly half way between two file values"])
