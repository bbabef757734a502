"""C09 multi-camera correspondences: greedy packing specification, every small relation and random ones through
the real correspondences() (with match_pairs replaced), real image scenes, and the Python call."""
import random
from vlib.core import *


def model(c, cams, counts, marks, accept):
    c.model("CorrRun", f"SPECIFICATION Spec\nCONSTANTS NCams = {cams}\nCounts <- K\nMarks = {marks}\nAccept = {accept}\n"
            "INVARIANTS NoTargetTwice TableLegal TableOrdered TableComplete\nCHECK_DEADLOCK FALSE\n",
            files={"CorrRun.tla": f"---- MODULE CorrRun ----\nEXTENDS Correspond\nK == {counts}\n====\n"}, timeout=800)


def gen(c, cams, counts, marks):
    return [(cams, w) for w in c.generate("GenRun", f"SPECIFICATION Spec\nCONSTANTS NCams = {cams}\nCounts <- K\nMarks = {marks}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n",
            files={"GenRun.tla": f"---- MODULE GenRun ----\nEXTENDS GenCorrespond\nK == {counts}\n====\n"}, timeout=800)]


def rand_relation(rng):
    cams = rng.choice((2, 3, 3, 4, 4, 4))
    n = [rng.randint(1, rng.choice((2, 4, 6))) for _ in range(cams)]
    dens = rng.choice((.2, .5, .8))
    top = rng.choice((1, 3, 40))
    w = []
    for a in range(cams):
        row = []
        for b in range(cams):
            lists = []
            if a < b:
                for i in range(n[a]):
                    ps = [p for p in range(n[b]) if rng.random() < dens or (p == i and rng.random() < .7)]
                    rng.shuffle(ps)
                    lists.append([[p, rng.randint(0, top), rng.randint(1, rng.choice((1, 3, 20)))] for p in ps])
            row.append(lists)
        w.append(row)
    return cams, n, w


def case(rng, cams, n, w, all_, acc):
    s = f"table {cams} {all_} {acc} {' '.join(map(str, n))} {rng.randint(1, 10 ** 6)} "
    for a in range(cams):
        for b in range(a + 1, cams):
            for l in w[a][b]:
                s += f"{len(l)} " + " ".join(f"{p} {x} {y}" for p, x, y in l) + " "
    return s + "\n"


def body(c):
    for acc in (3, 4):
        model(c, 3, "<<2,2,1>>", "{0,1,2}", acc)
        model(c, 2, "<<2,3>>", "{0,1,2}", acc)
        model(c, 4, "<<1,2,1,1>>", "{0,1,2}" if c.thorough else "{0,1}", acc)
    if c.thorough:
        model(c, 4, "<<2,1,1,2>>", "{0,1}", 3)
        model(c, 3, "<<2,2,2>>", "{0,2}", 3)
    rng = random.Random(c.seed)
    rel = gen(c, 3, "<<2,2,1>>", "{0,2}") + gen(c, 2, "<<2,2>>", "{0,1,2}") + gen(c, 4, "<<1,2,1,1>>", "{0,2}")
    if c.thorough:
        rel += gen(c, 4, "<<2,1,1,2>>", "{0,2}") + gen(c, 3, "<<2,2,1>>", "{0,1,2}")
    cases = []
    for cams, w in rel:
        # a camera without later cameras has no list: take its number of targets from the relation's shape
        n = {2: [2, 2], 3: [2, 2, 1], 4: [1, 2, 1, 1]}[cams]
        if cams == 4 and len(w[0][1]) == 2:
            n = [2, 1, 1, 2]
        cases.append(case(rng, cams, n, w, rng.randint(0, 1) if rng.random() < .3 else 0, rng.choice((0, 3))))
    for _ in range(20000 if c.thorough else 1500):
        cams, n, w = rand_relation(rng)
        cases.append(case(rng, cams, n, w, int(rng.random() < .25), rng.choice((0, 1, 4, 10))))
    # crowds: candidate groups by the 100000s, up to the scratch capacity (809600 groups)
    cases += [f"crowd {m} {n}\n" for m, n in ((2, 150), (3, 1), (3, 74), (3, 90), (4, 1), (4, 24), (4, 28))
              + (((3, 92), (3, 93), (4, 29), (2, 199)) if c.thorough else ())]
    c.check_records("TraceCorr", build_harness("h_corr", weaken=["match_pairs"], defs=["INJECT"]), cases,
                    env={"ASAN_OPTIONS": SAN_ENV["ASAN_OPTIONS"].replace("1000000000", "65536")})   # scratch tables of 10000s of entries each
    # scenes seen by real cameras: two records each
    exe = build_harness("h_corr")
    cases = [f"scene {rng.choice((2, 3, 4))} {rng.randint(1, 10 ** 6)} {rng.choice((1, 4, 12, 25))} {rng.choice((0, 0, 2))} "
             f"{rng.randint(0, 1)} {rng.choice((0, 0, 4))} {int(rng.random() < .2)}\n" for _ in range(600 if c.thorough else 60)]
    recs = c.drive(exe, "".join(cases), timeout=600)
    c.judge("TraceCorr", recs, c.validate("TraceCorr", recs), rerun=lambda i: c.drive(exe, cases[i // 2])[i % 2])
    pys = [{"cams": rng.choice((1, 2, 3, 4)), "seed": rng.randint(1, 10 ** 6), "n": rng.choice((0, 1, 5, 16))} for _ in range(200 if c.thorough else 40)]
    c.check_records_py("TraceCorrPy", "py_corr.py", pys)


main("C09", body, assumptions=["candidate lists name each partner once, with positive distances"])
