"""C14 parameter and calibration files: every fault ParFile enumerates, in every layout of the file."""
import random
from decimal import Decimal
from vlib.core import *

CFG = "SPECIFICATION Spec\nCONSTANT MaxCams = 4\nINVARIANTS AllOrNothing Emit\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n"
BAD = ("abc", "-", "x1", "#", "one", ",5", "+-3")


class Files:
    """Lays the files of one case out in a directory of its own."""
    def __init__(self, c, rng):
        self.c, self.rng, self.n = c, rng, 0

    def new(self):
        self.n += 1
        d = f"{self.c.work}/f{self.n}"
        os.mkdir(d)
        with open(f"{d}/bystander", "w") as f:
            f.write("1\n2\n3\n")
        return d

    def token(self, kind, i, fault="none", at=0, fixed=None):
        """(text in the file, canonical value)"""
        rng = self.rng
        if fixed is not None:
            return fixed, fixed
        if kind == "word":
            n = rng.choice((3, 8, 20, 60, 239))
            if fault == "long" and at == i:
                n = rng.choice((240, 241, 300, 900))
            w = "".join(rng.choice("abcXYZ/._0123-") for _ in range(n - 1)) + rng.choice("abc")
            return w, w
        if kind == "int":
            v = rng.choice((0, 1, -1, rng.randint(-9, 99), rng.randint(-10**6, 10**6), rng.randint(100000, 200000)))
            return rng.choice(("%d", "%d", "%03d", "%+d")) % v, "%d" % v
        digits = rng.choice((0, 1, 2, 4, 6, 8))
        v = Decimal(rng.randint(-10**rng.randint(1, 9), 10**rng.randint(1, 9))).scaleb(-digits)
        canon = "%.8f" % v
        txt = rng.choice((str(v), canon, "%+.9f" % v, "%.16e" % v))
        if v > 0 and v < 1 and rng.random() < .3:
            txt = ("%.8f" % v).lstrip("0")
        return txt, ("0.00000000" if canon == "-0.00000000" else canon)

    def lay(self, d, name, texts, fault="none", at=0, rows=False):
        """Write the tokens with the fault applied, in some layout."""
        rng = self.rng
        if fault == "missing":
            return
        t = list(texts)
        tail = None
        if fault == "garbled":
            t[at - 1] = rng.choice(BAD)
        if fault == "cut":
            if at < len(t) - 1 and len(t[at]) > 1 and rng.random() < .3 and name != "block" and not (rows and at % 4 in (0, 3)):
                tail = t[at][:rng.randint(1, len(t[at]) - 1)] if t[at][0] not in "+-." else None
            t = t[:at]
        seps = rng.choice((["\n"], ["\n"], ["\r\n"], [" \n"], ["\n", " "], ["\n\n"], ["\t", "\n   "]))
        s = "".join(x + rng.choice(seps) for x in t)
        if tail:
            s += tail
        elif rng.random() < .3:
            s = s.rstrip()
        with open(f"{d}/{name}", "w", newline="") as f:
            f.write(s)

    def tokens(self, kinds, fixed={}, **kw):
        tt = [self.token(k, i + 1, fixed=fixed.get(i), **kw) for i, k in enumerate(kinds)]
        return [a for a, _ in tt], [b for _, b in tt]


def angles(rng):
    return [rng.randint(-31, 31) for _ in range(3)]


def body(c):
    rng = random.Random(c.seed)
    cases = c.generate("ParFile", CFG)
    fs = Files(c, rng)
    kinds = {(k["fmt"], k["size"]): k["kinds"] for k in cases}
    out, pys = [], []
    for rep in range(6 if c.thorough else 1):
        for k in cases:
            fmt, size, fault, at = k["fmt"], k["size"], k["fault"], k["at"]
            if fmt in ("ori", "added", "manori"):
                continue
            d = fs.new()
            fixed = {0: str(size), **{1 + 2 * size + i: str(rng.randint(0, 1)) for i in range(3)}} if fmt == "control" else {}
            if fmt == "sortgrid":
                fixed = {0: str(rng.randint(1, 500))}
            if fmt == "orient":
                fixed = {i: str(rng.randint(0, 3)) for i in range(12)}
            texts, toks = fs.tokens(k["kinds"], fixed, fault=fault, at=at)
            fs.lay(d, "main", texts, fault, at, rows=fmt == "calblock")
            echo = dict(fmt=fmt, size=size, fault=fault, at=at, toks=toks)
            out.append(f"read {fmt} {size} {d} {json.dumps(echo)}\n")
            if fmt in ("track", "volume", "sequence", "control", "target"):
                pys.append(dict(op="read", fmt=fmt, size=size, dir=d, echo=echo))
        # manual orientation, against good and bad blocks
        for k in [k for k in cases if k["fmt"] == "manori"]:
            for cam in range(k["size"]):
                d = fs.new()
                npts = rng.choice((3, 4, 5, 9, 30))
                nrs = [rng.sample(range(1, max(npts, 4) + 1 + (rng.random() < .2)), 4) for _ in range(k["size"])]
                flat = [str(x) for r in nrs for x in r]
                fs.lay(d, "main", flat, k["fault"], k["at"])
                bt, bv = fs.tokens(kinds["calblock", 1] * npts)
                block = rng.choice(("ok", "ok", "ok", "missing", "cut", "garbled"))
                if npts < 4:
                    block = "ok"
                fs.lay(d, "block", bt, block if block != "ok" else "none", 4 * npts - 2 if block == "cut" else rng.randint(1, 4 * npts))
                echo = dict(size=k["size"], cam=cam, fault=k["fault"], at=k["at"], npts=npts, block=block, nrs=nrs[cam],
                            pts=[bv[4 * i + 1:4 * i + 4] for i in range(npts)])
                out.append(f"manori {cam} {d} {json.dumps(echo)}\n")
        # orientation files
        of = [k for k in cases if k["fmt"] == "ori"]
        af = [(k["fault"], k["at"]) for k in cases if k["fmt"] == "added"]
        combos = [(k["fault"], k["at"], ("none", 0), ("missing", 0)) for k in of] + [("none", 0, a, b) for a in af for b in af] + \
                 [("none", 0, ("missing", 0), b) for b in af]
        for fault, at, a, b in combos:
            d = fs.new()
            ang = angles(rng)
            fixed = {3 + i: "%.8f" % (x / 10) if x else "0.00000000" for i, x in enumerate(ang)}
            texts, toks = fs.tokens(kinds["ori", 0], fixed)
            fs.lay(d, "main", texts, fault, at)
            src = {}
            for nm, (f_, a_) in (("add", a), ("fb", b)):
                tt, tv = fs.tokens(kinds["added", 0])
                fs.lay(d, nm, tt, f_, a_)
                src[nm] = dict(state="ok" if f_ == "none" else "missing" if f_ == "missing" else "bad", toks=tv)
            am, fm = (int(src[n]["state"] != "missing" or rng.random() < .5) for n in ("add", "fb"))
            via = rng.choice(("ori", "cal"))
            echo = dict(fault=fault, at=at, toks=toks, add=src["add"], fb=src["fb"], via=via, ang=ang)
            out.append(f"cal {via} {d} {am} {fm} {json.dumps(echo)}\n")
            pys.append(dict(op="cal", dir=d, amode=am, fmode=fm, echo=dict(echo, via="cal")))
    # write and read back
    dec = lambda lim, nd: Decimal(rng.choice((rng.randint(-lim, lim), rng.randint(-99, 99), 0))).scaleb(-nd)
    canon = lambda v: "0.00000000" if not v else "%.8f" % v
    for i in range(1500 if c.thorough else 250):
        d = fs.new()
        ang = [rng.choice((Decimal(rng.randint(-31415, 31415)).scaleb(-4), dec(314159265, 8))) for _ in range(3)]
        v = [dec(10**rng.choice((6, 10, 12)), 8) for _ in range(3)] + ang + [dec(10**7, 7) for _ in range(9)] + \
            [dec(10**rng.choice((3, 6, 7)), 4) for _ in range(3)] + [dec(10**rng.choice((4, 8, 10)), 8) for _ in range(3)] + \
            [dec(10**rng.choice((3, 6, 9)), 8) for _ in range(7)]
        where, add = rng.choice(("ok", "ok", "ok", "no-dir", "no-add-dir")), rng.randint(0, 1)
        toks = [canon(x) for x in v]
        if rng.random() < .5:
            for n in ("main", "add"):
                with open(f"{d}/{n}", "w") as f:
                    f.write("9 " * rng.randint(1, 900))
        echo = dict(where=where, add=add, toks=toks[:21], atoks=toks[21:])
        out.append(f"wcal {rng.choice(('ori', 'cal'))} {d} {where} {add} {' '.join(map(str, v))} {json.dumps(echo)}\n")
        if i % 2 == 0:
            pys.append(dict(op="wcal", dir=d, where=where, v=[float(x) for x in v], toks=toks[:21], echo=dict(echo, add=1)))
        d = fs.new()
        v = [rng.choice((rng.randint(0, 9), rng.randint(0, 300), rng.randint(-10**9, 10**9))) for _ in range(13)]
        where = rng.choice(("ok", "ok", "no-dir"))
        out.append(f"wtar {d} {where} {' '.join(map(str, v))} {json.dumps(dict(where=where, toks=[str(x) for x in v]))}\n")
    c.check_records("TraceParFile", build_harness("h_parfile"), out)
    c.check_records_py("TraceParFile", "py_parfile.py", pys)


main("C14", body, assumptions=["a file may be cut between two tokens or inside a token that is not its last; a token is garbled into something that is no number at all",
                               "values are compared to the eight decimals the records carry"])
