"""C23: histories of operations on the objects of the bindings.  Numbers travel as integers: reals in eighths, names by their number."""
import gc, os, sys
import numpy as np
from pycommon import *
from optv.parameters import *
from optv.calibration import Calibration
from optv.tracking_framebuf import TargetArray, Target, read_targets

NO = -999999


def D(k):
    return k / 8.


def iD(x):
    x = float(x) * 8
    return int(x) if x == int(x) and abs(x) < 1e9 else NO


def I(k):
    return k


def iI(x):
    return int(x)


def N(k):
    return ("img/cam_%d." if k % 3 else "c\u00e4m%d_" + "x" * 200) % k


def iN(b):
    s = b.decode("utf8") if isinstance(b, bytes) else b
    d = "".join(ch for ch in s if ch.isdigit())
    return int(d) if d and N(int(d)) == s else NO


def C(v):                                   # a list, tuple or array: all are sequences
    return v


class Kind:
    files = False


def getset(cls, n, i, o, sn=None):
    return (lambda x: [o(getattr(x, "get_" + n)())], lambda x, v: getattr(x, "set_" + (sn or n))(i(v[0])))


def many(n, i, o, sn=None, seq=tuple):
    return (lambda x: [o(k) for k in getattr(x, "get_" + n)()], lambda x, v: getattr(x, "set_" + (sn or n))(seq(i(k) for k in v)))


def arr(g):
    return np.array(list(g), dtype=float)


def bits(n):
    return (lambda x: [iI(getattr(x, "get_" + n)())], lambda x, v: getattr(x, "set_" + n)(bool(v[0])))


def name(n, cam):
    return (lambda x: [iN(getattr(x, "get_" + n)(cam))], lambda x, v: getattr(x, "set_" + n)(cam, N(v[0])))


MEDIA = {"n1": getset(0, "n1", D, iD), "n3": getset(0, "n3", D, iD), "nlay": (lambda x: [x.get_nlay()], None),
         "n2": (lambda x: [iD(k) for k in x.get_n2()], None), "d": (lambda x: [iD(k) for k in x.get_d()], None)}
TRACK = {n: getset(0, n, D, iD) for n in ("dacc", "dangle", "dvxmin", "dvxmax", "dvymin", "dvymax", "dvzmin", "dvzmax")}
TRACK.update({n: getset(0, n, I, iI) for n in ("dsumg", "dn", "dnx", "dny", "add")})
VOLUME = {n: many(n, D, iD) for n in ("X_lay", "Zmin_lay", "Zmax_lay")}
VOLUME.update({n: getset(0, n, D, iD) for n in ("cn", "cnx", "cny", "csumg", "eps0", "corrmin")})
TARG = {"discont": getset(0, "max_discontinuity", I, iI), "sumg": getset(0, "min_sum_grey", I, iI), "cross": getset(0, "cross_size", I, iI),
        "gv": many("grey_thresholds", I, iI), "nn": many("pixel_count_bounds", I, iI), "nx": many("xsize_bounds", I, iI), "ny": many("ysize_bounds", I, iI)}
CALIB = {"pos": many("pos", D, iD, seq=arr), "ang": many("angles", D, iD, seq=list), "prim": many("primary_point", D, iD, seq=arr),
         "rad": many("radial_distortion", D, iD, seq=arr), "dec": many("decentering", D, iD, seq=arr), "aff": many("affine", D, iD, "affine_trans", arr),
         "glass": many("glass_vec", D, iD, seq=arr)}
ITEM = {"pnr": (lambda t: [t.pnr()], lambda t, v: t.set_pnr(v[0])), "tnr": (lambda t: [t.tnr()], lambda t, v: t.set_tnr(v[0])),
        "pos": (lambda t: [iD(k) for k in t.pos()], lambda t, v: t.set_pos([D(k) for k in v])),
        "count": (lambda t: list(t.count_pixels()), lambda t, v: t.set_pixel_counts(*v)),
        "sumg": (lambda t: [t.sum_grey_value()], lambda t, v: t.set_sum_grey_value(v[0]))}
VIEWS = {"n2": ("get_n2", D, iD), "d": ("get_d", D, iD), "X_lay": ("get_X_lay", D, iD), "Zmin_lay": ("get_Zmin_lay", D, iD),
         "Zmax_lay": ("get_Zmax_lay", D, iD), "gv": ("get_grey_thresholds", I, iI)}


def sequence(cams):
    d = {"first": getset(0, "first", I, iI), "last": getset(0, "last", I, iI)}
    d.update({"img.%d" % k: name("img_base_name", k) for k in range(cams)})
    return d


def control(cams):
    d = {n: bits(n) for n in ("hp_flag", "allCam_flag", "tiff_flag")}
    d["chfield"] = getset(0, "chfield", I, iI)
    d["image"] = many("image_size", I, iI)
    d["pixel"] = many("pixel_size", D, iD)
    d["cams"] = (lambda x: [x.get_num_cams()], None)
    for k in range(cams):
        d["img.%d" % k] = name("img_base_name", k)
        d["cal.%d" % k] = name("cal_img_base_name", k)
    for m in MEDIA:
        d["mm." + m] = (lambda x, m=m: MEDIA[m][0](x.get_multimedia_params()), None)
    return d


def targets(n):
    return {"%d.%s" % (i, a): (lambda x, i=i, a=a: ITEM[a][0](x[i]), lambda x, v, i=i, a=a: ITEM[a][1](x[i], v)) for i in range(n) for a in ITEM}


def F(k):
    return "%.17g" % D(k)


class Prog:
    def __init__(self, cls):
        self.cls, self.live, self.acc, self.cams, self.views = cls, {}, {}, {}, {}
        self.n = 0

    def table(self, h):
        o = self.live[h]
        if isinstance(o, SequenceParams):
            return sequence(self.cams[h])
        for t, d in ((TrackingParams, TRACK), (VolumeParams, VOLUME), (TargetParams, TARG), (Calibration, CALIB), (MultimediaParams, MEDIA), (Target, ITEM)):
            if isinstance(o, t):
                return d
        return control(o.get_num_cams()) if isinstance(o, ControlParams) else targets(len(o))

    def new(self, p, style):
        c, g = self.cls, {x["a"]: x["v"] for x in p}
        d = lambda a: [D(k) for k in g[a]]
        if c == "track":
            o = TrackingParams(accel_lim=D(g["dacc"][0]), angle_lim=D(g["dangle"][0]), add_particle=g["add"][0],
                               velocity_lims=[[D(g["dv%smin" % a][0]), D(g["dv%smax" % a][0])] for a in "xyz"])
        elif c == "volume":
            o = VolumeParams(x_span=d("X_lay"), z_spans=list(zip(d("Zmin_lay"), d("Zmax_lay"))), pixels_x=D(g["cnx"][0]), pixels_y=D(g["cny"][0]),
                             pixels_tot=D(g["cn"][0]), ref_gray=D(g["csumg"][0]), min_correlation=D(g["corrmin"][0]), epipolar_band=D(g["eps0"][0]))
        elif c == "targpar":
            o = TargetParams(discont=g["discont"][0], gvthresh=g["gv"], pixel_count_bounds=g["nn"], xsize_bounds=g["nx"], ysize_bounds=tuple(g["ny"]),
                             min_sum_grey=g["sumg"][0], cross_size=g["cross"][0])
        elif c == "calib":
            o = Calibration(*[arr(d(a)) for a in ("pos", "ang", "prim", "rad", "dec", "aff", "glass")])
        elif c == "media":
            k = g["nlay"][0]
            o = MultimediaParams(n1=D(g["n1"][0]), n2=d("n2")[:k], n3=D(g["n3"][0]), d=d("d")[:k])
        elif c == "sequence":
            n = len(g) - 2
            o = SequenceParams(frame_range=(g["first"][0], g["last"][0]), image_base=[N(g["img.%d" % k][0]) for k in range(n)])
        elif c == "control":
            n = g["cams"][0]
            o = ControlParams(n, [f for f, a in (("hp", "hp_flag"), ("allcam", "allCam_flag"), ("headers", "tiff_flag")) if g[a][0]], g["image"], d("pixel"),
                              D(g["mm.n1"][0]), d("mm.n2")[:1], d("mm.d")[:1], D(g["mm.n3"][0]))
            for k in range(n):
                o.set_img_base_name(k, N(g["img.%d" % k][0])); o.set_cal_img_base_name(k, N(g["cal.%d" % k][0]))
        elif c == "targets":
            n = len(g) // 5
            o = TargetArray(n)
            t = targets(n)
            for a in g:
                t[a][1](o, g[a])
        return o

    def write(self, p, bad):
        """A file of the class's format with the given contents; a bad one misses its end."""
        g = {x["a"]: x["v"] for x in p}
        self.n += 1
        fn = "f%d" % self.n
        f = lambda *a: [F(g[x][k]) for x, k in a]
        if self.cls == "track":
            w = f(*[(a, 0) for a in ("dvxmin", "dvxmax", "dvymin", "dvymax", "dvzmin", "dvzmax", "dangle", "dacc")]) + [str(g["add"][0])]
        elif self.cls == "volume":
            w = f(*[(a, k) for k in (0, 1) for a in ("X_lay", "Zmin_lay", "Zmax_lay")], *[(a, 0) for a in ("cnx", "cny", "cn", "csumg", "corrmin", "eps0")])
        elif self.cls == "targpar":
            w = [str(x) for x in g["gv"] + g["discont"] + g["nn"] + g["nx"] + g["ny"] + g["sumg"] + g["cross"]]
        elif self.cls == "sequence":
            w = [N(g["img.%d" % k][0]) for k in range(len(g) - 2)] + [str(g["first"][0]), str(g["last"][0])]
        elif self.cls == "control":
            w = [str(g["cams"][0])] + [N(g[a % k][0]) for k in range(g["cams"][0]) for a in ("img.%d", "cal.%d")]
            w += [str(g[a][0]) for a in ("hp_flag", "allCam_flag", "tiff_flag")] + [str(x) for x in g["image"]] + f(("pixel", 0), ("pixel", 1)) + [str(g["chfield"][0])]
            w += f(("mm.n1", 0), ("mm.n2", 0), ("mm.n3", 0), ("mm.d", 0))
        elif self.cls == "calib":
            m = Calibration(angs=arr(D(k) for k in g["ang"])).get_rotation_matrix()
            w = [" ".join(f(*[("pos", k) for k in range(3)], *[("ang", k) for k in range(3)]))] + [" ".join("%.17g" % x for x in r) for r in m]
            w += f(*[("prim", k) for k in range(3)], *[("glass", k) for k in range(3)])
            v = f(*[("rad", k) for k in range(3)], *[("dec", k) for k in range(2)], *[("aff", k) for k in range(2)])
            open(fn + "add", "w").write(" ".join(v) + "\n")
        if bad == 2:
            return fn + "none", fn + "add"
        open(fn, "w", encoding="utf8").write("\n".join(w[:-1] if bad else w) + "\n")
        return fn, fn + "add"

    def read(self, h, p, bad=0):
        o = self.live[h]
        fn, add = self.write(p, bad)
        fn, add = fn.encode(), add.encode()
        if self.cls == "sequence":
            n = len(p) - 2
            o.read_sequence_par(fn, n)
            self.cams[h] = n
        elif self.cls == "calib":
            if self.n % 2:
                o.from_file(fn, add)
            else:
                o.from_file(fn, b"nosuchfile", add)
        else:
            getattr(o, {"track": "read_track_par", "volume": "read_volume_par", "control": "read_control_par", "targpar": "read"}[self.cls])(fn)

    def bad(self, h, k):
        """Calls that must be refused; returns nothing, raises."""
        o, c = self.live[h], self.cls
        long = "n" * (240 + k % 50)
        opts = {"volume": [lambda: o.set_X_lay((1., 2., 3.)), lambda: o.set_Zmin_lay([1.]), lambda: o.set_Zmax_lay(np.zeros(4)), lambda: o.set_X_lay(())],
                "targpar": [lambda: o.set_grey_thresholds([1] * 5), lambda: o.get_grey_thresholds(5)],
                "media": [lambda: o.set_layers([1., 2.], [1.]), lambda: o.set_layers([7.] * 4, [7.] * 4), lambda: o.set_layers([], [1.])],
                "calib": [lambda: o.set_pos([1., 2.]), lambda: o.set_angles(np.ones(4)), lambda: o.set_primary_point(np.ones(2)), lambda: o.set_radial_distortion(np.ones(4)),
                          lambda: o.set_decentering(np.ones(3)), lambda: o.set_affine_trans(np.ones(3)), lambda: o.set_glass_vec(np.ones(2)),
                          lambda: o.set_primary_point(np.ones((1, 3)))],
                "sequence": [lambda: o.set_img_base_name(0, long), lambda: o.set_img_base_name(self.cams[h], "x"), lambda: o.set_img_base_name(-1, "x"),
                             lambda: o.get_img_base_name(self.cams[h] + k), lambda: o.get_img_base_name(-1 - k)],
                "control": [lambda: o.set_image_size((1, 2, 3)), lambda: o.set_pixel_size((1.,)), lambda: o.set_img_base_name(0, long), lambda: o.set_cal_img_base_name(0, long),
                            lambda: o.set_cal_img_base_name(o.get_num_cams(), "x"), lambda: o.set_img_base_name(-1, "x"), lambda: o.get_img_base_name(o.get_num_cams()),
                            lambda: o.get_cal_img_base_name(-1 - k)],
                "targets": [lambda: o[len(o)], lambda: o[-1], lambda: read_targets("nosuchdir/t.", 1 + k), lambda: self.no_targets()],
                "track": [lambda: o.read_track_par(b"nosuchfile")]}[c]
        opts[k % len(opts)]()

    def no_targets(self):
        """Files that are not there, or hold more than there is ever room for."""
        try:
            read_targets("nosuch.", 0)
            return
        except IOError:
            pass
        if not os.path.exists("full.0001_targets"):
            with open("full.0001_targets", "w") as f:
                f.write("20001\n" + "   7  11.5000  12.5000  9 3 3 100  -1\n" * 20001)
        read_targets("full.", 1)

    def do(self, e):
        op, h, h2 = e["op"], e["h"], e["h2"]
        o = self.live.get(h)
        if op == "new":
            self.live[h] = self.new(e["pairs"], e["i"])
            if self.cls == "sequence":
                self.cams[h] = len(e["pairs"]) - 2
        elif op == "set":
            self.table(h)[e["a"]][1](o, e["v"])
        elif op == "poke":
            t = self.views[h]
            o[e["i"] - 1] = t[0](e["v"][0])
        elif op == "bad":
            self.bad(h, e["i"])
        elif op == "badlayers":
            o.set_layers(*(([1.], []) if e["i"] % 2 else ([2.] * 4, [2.] * 4)))
        elif op == "layers":
            o.set_layers([D(k) for k in e["v"]], [D(k) for k in e["w"]])
        elif op == "load":
            self.read(h, e["pairs"])
        elif op == "loadbad":
            self.read(h, e["pairs"], 1 + e["i"] % 2)
        elif op in ("view", "copy"):
            g, i, back = VIEWS[e["a"]]
            x = getattr(o, g)(copy=False) if op == "view" else getattr(o, g)() if e["i"] % 2 else getattr(o, g)(copy=True)
            self.live[h2], self.views[h2] = x, (i, back)
        elif op == "media":
            self.live[h2] = o.get_multimedia_params()
        elif op == "item":
            self.live[h2] = o[e["i"]]
        elif op == "sort":
            o.sort_y()
        elif op in ("via", "readback"):
            self.n += 1
            if self.cls == "calib":
                f = b"w%d" % self.n
                o.write(f, f + b"add")
                self.live.setdefault(h2, Calibration()).from_file(f, f + b"add")
            else:
                o.write(b"w%d." % self.n, e["i"])
                self.live[h2] = read_targets("w%d." % self.n, e["i"])
        elif op == "drop":
            del self.live[h]
            gc.collect()

    def obs(self):
        r = []
        for h in sorted(self.live):
            o = self.live[h]
            if h in self.views:
                r.append({"h": h, "a": "v", "v": [self.views[h][1](k) for k in o]})
                continue
            for a, (g, _) in self.table(h).items():
                r.append({"h": h, "a": a, "v": g(o)})
        return r

    def side(self):
        """Things the heap model does not hold: derived values and the length of arrays."""
        ok = 1
        for h, o in self.live.items():
            if isinstance(o, Calibration):
                ok &= np.allclose(o.get_rotation_matrix(), Calibration(angs=o.get_angles()).get_rotation_matrix(), atol=1e-12)
            if isinstance(o, TargetArray):
                ok &= len(list(o)) == len(o)
            if isinstance(o, TargetParams):
                ok &= list(o.get_grey_thresholds(2)) == list(o.get_grey_thresholds())[:2]
            if isinstance(o, ControlParams):
                ok &= o.get_multimedia_params() is o.get_multimedia_params()
            if isinstance(o, MultimediaParams):
                ok &= len(str(o)) > 10
        return int(ok)


for c in cases():
    p = Prog(c["cls"])
    out = []
    for e in c["events"]:
        err = ""
        try:
            p.do(e)
        except Exception as x:
            err = type(x).__name__
        out.append(dict(e, err=err, obs=p.obs(), side=p.side()))
    for f in os.listdir("."):
        if f[0] in "fw" and f[1].isdigit():
            os.unlink(f)
    answer({"cls": c["cls"], "events": out})
