"""C23 bindings: object histories enumerated by TLC on the real objects; array calls against the C library."""
import random
from vlib.core import *
from vlib.calls import TRANSFORMS, call

#            accessor -> (cells, kind)   kind: r real, i int, f flag, n name, - not settable
TABLES = {
    "media": {"n1": (1, "r"), "n3": (1, "r"), "nlay": (1, "-"), "n2": (3, "-"), "d": (3, "-")},
    "track": {**{n: (1, "r") for n in ("dacc", "dangle", "dvxmin", "dvxmax", "dvymin", "dvymax", "dvzmin", "dvzmax")}, **{n: (1, "i") for n in ("dsumg", "dn", "dnx", "dny", "add")}},
    "volume": {**{n: (2, "r") for n in ("X_lay", "Zmin_lay", "Zmax_lay")}, **{n: (1, "r") for n in ("cn", "cnx", "cny", "csumg", "eps0", "corrmin")}},
    "targpar": {"discont": (1, "i"), "sumg": (1, "i"), "cross": (1, "i"), "gv": (4, "i"), "nn": (2, "i"), "nx": (2, "i"), "ny": (2, "i")},
    "calib": {"pos": (3, "r"), "ang": (3, "r"), "prim": (3, "r"), "rad": (3, "r"), "dec": (2, "r"), "aff": (2, "r"), "glass": (3, "r")},
    "target": {"pnr": (1, "i"), "tnr": (1, "i"), "pos": (2, "r"), "count": (3, "i"), "sumg": (1, "i")},
}
VIEWS = {"volume": ("X_lay", "Zmin_lay", "Zmax_lay"), "targpar": ("gv",), "media": ("n2", "d")}
GEN = {  # class: loads, views, medias, items, files
    "media": (0, 1, 0, 0, 0), "track": (1, 0, 0, 0, 0), "volume": (1, 1, 0, 0, 0), "targpar": (1, 1, 0, 0, 0),
    "calib": (1, 0, 0, 0, 1), "sequence": (1, 0, 0, 0, 0), "control": (1, 0, 1, 0, 0), "targets": (0, 0, 0, 1, 1)}
BAD = {"volume": ("ValueError",), "targpar": ("ValueError",), "media": ("ValueError",), "calib": ("ValueError",), "track": ("OSError",),
       "sequence": ("ValueError",) + ("IndexError",) * 4, "control": ("ValueError",) * 4 + ("IndexError",) * 4, "targets": ("IndexError",) * 2 + ("OSError",) * 2}


def table(cls, n):
    if cls == "sequence":
        return {"first": (1, "i"), "last": (1, "i"), **{f"img.{k}": (1, "n") for k in range(n)}}
    if cls == "control":
        return {**{f: (1, "f") for f in ("hp_flag", "allCam_flag", "tiff_flag")}, "chfield": (1, "i"), "image": (2, "i"), "pixel": (2, "r"), "cams": (1, "-"),
                **{f"{a}.{k}": (1, "n") for k in range(n) for a in ("img", "cal")}, **{"mm." + m: (k, "-") for m, (k, _) in TABLES["media"].items()}}
    if cls == "targets":
        return {f"{i}.{a}": v for i in range(n) for a, v in TABLES["target"].items()}
    return TABLES[cls]


def val(rng, kind):
    return rng.randint(0, 1) if kind == "f" else rng.randint(1, 9999) if kind == "n" else rng.randint(-400, 4000)


def pairs(rng, cls, n, how):
    """Values for a whole object: by its constructor ("new") or from a file ("load"), with the defaults of what is not given."""
    t = table(cls, n)
    p = {a: [val(rng, k) for _ in range(m)] for a, (m, k) in t.items()}
    if cls == "targets":
        ys = rng.sample(range(-400, 4000), n)
        for i in range(n):
            p[f"{i}.pos"][1] = ys[i]
    if cls == "track":
        for a in ("dsumg", "dn", "dnx", "dny"):
            p[a] = [0]
    pre = "mm." if cls == "control" else ""
    if cls in ("control", "media"):
        k = rng.randint(1, 3) if cls == "media" else 1
        p[pre + "nlay"] = [k]
        for a in ("n2", "d"):
            p[pre + a] = [val(rng, "r") for _ in range(k)] + [0] * (3 - k)
    if cls == "control":
        p["cams"] = [n]
        if how == "new":
            p["chfield"] = [0]
    return [{"a": a, "v": v} for a, v in p.items()]


def events(rng, cls, hist):
    """Fill in accessors and values of an abstract history."""
    base = rng.randrange(1000)
    size, src, out = {}, {}, []

    def ev(op, h, **k):
        out.append(dict(dict(op=op, h=h, h2="", a="", v=[], w=[], i=rng.randint(1, 60), pairs=[], why=""), **k))

    def new(h):
        size[h] = rng.randint(1, 6) if cls == "targets" else rng.choice((1, 2, 3, 4, 4))
        ev("new", h, pairs=pairs(rng, cls, size[h], "new"))
    new("o1")
    for s in hist:
        op, h, h2, r = s["op"], s["h"], s["h2"], s["r"]
        if op == "new":
            new(h)
        elif op == "set":
            t = TABLES["media"] if h[0] == "m" else TABLES["target"] if h[0] == "t" else table(cls, size[h])
            names = [a for a, (_, k) in t.items() if k != "-"]
            a = names[(base + 7 * r) % len(names)]
            m, k = t[a]
            v = [val(rng, k) for _ in range(rng.randint(1, 4) if a == "gv" else m)]
            if a.endswith("pos") and cls == "targets":
                v[1] = rng.randint(4000, 10**6)          # all y of an array stay different
            ev("set", h, a=a, v=v)
        elif op in ("load", "loadbad"):
            n = rng.randint(1, 4)
            if op == "load":
                size[h] = n
            ev(op, h, pairs=pairs(rng, cls, n, "load"))
        elif op in ("view", "copy"):
            a = rng.choice(VIEWS["media"] if h[0] == "m" else VIEWS[cls])
            src[h2] = a
            ev(op, h, h2=h2, a=a)
        elif op == "poke":
            k = {"n2": 3, "d": 3, "gv": 4}.get(src[h], 2)
            ev("poke", h, i=rng.randint(1, k), v=[val(rng, "r")])
        elif op == "bad":
            i = rng.randint(0, 99)
            ev("bad", h, i=i, why=BAD[cls][i % len(BAD[cls])] if len(BAD[cls]) > 1 else BAD[cls][0])
        elif op == "layers":
            k = rng.randint(0, 3)
            ev("layers", h, v=[val(rng, "r") for _ in range(k)], w=[val(rng, "r") for _ in range(k)])
        elif op == "item":
            ev("item", h, h2=h2, i=rng.randrange(size[h]))
        elif op == "via":
            size[h2] = size[h]
            ev("readback" if cls == "targets" else "via", h, h2=h2)
        else:
            ev(op, h, h2=h2)
    return out


def frame(rng):
    cams, n = rng.randint(1, 4), rng.randint(1, 6)
    targs = [[[rng.randint(0, 8000), rng.randint(0, 8000)] for _ in range(rng.randint(0, 5))] for _ in range(cams)]
    corr = [[rng.choice([-1] + list(range(len(targs[k])))) if k < cams else -1 for k in range(4)] for _ in range(n)]
    return dict(fn="frame", n=n, targs=targs, corr=corr, pos=[[rng.randint(-40000, 40000) for _ in range(3)] for _ in range(n)], how=rng.randint(0, 2))


def body(c):
    c.model("Bindings", f"SPECIFICATION Spec\nCONSTANTS Vals = {{1,2}}\nDepth = {5 if c.thorough else 4}\nINVARIANTS ViewShares Separate\nPROPERTY Isolated\nCHECK_DEADLOCK FALSE\n", timeout=800)
    rng = random.Random(c.seed)
    cases = []
    for cls, g in GEN.items():
        b = lambda x: "TRUE" if x else "FALSE"
        for depth, many in ((2, None), (4, 1500 if c.thorough else 130)):
            hs = c.generate("GenBindings", "SPECIFICATION Spec\nCONSTANTS Loads = {}\nViews = {}\nMedias = {}\nItems = {}\nFiles = {}\nDepth = {}\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n".format(*map(b, g), depth))
            for h in hs if many is None or many >= len(hs) else rng.sample(hs, many):
                cases.append({"cls": cls, "events": events(rng, cls, h)})
    c.check_records_py("TraceBindings", "py_bindings.py", cases)
    per = 400 if c.thorough else 40
    calls = [call(rng, fn) for fn in ("flat", "image", "position", "single", "dumbbell", "curve", "matched") + TRANSFORMS for _ in range(per)] + [frame(rng) for _ in range(per)]
    env = {"H_CALLS": build_harness("h_calls")}
    c.check_records_py("TraceCalls", "py_calls.py", calls, env=env)
    # a dumbbell array that is not contiguous is read in the wrong order (known finding)
    odd = [dict(call(rng, "dumbbell"), how=[h]) for h in ("t", "f")]
    c.check_records_py("TraceCalls", "py_calls.py", odd, env=env, ident=lambda rec, why: "dumbbell-layout" if why.replace("\\", "") == '{"result"}' else None)


main("C23", body, assumptions=["single-threaded programs; values a C int or double represents"])
