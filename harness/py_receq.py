"""C15: == and != of the parameter objects."""
import random
from pycommon import *
from optv.parameters import *

IDX = {"x": 0, "y": 1}


def mk(kind, r):
    d, i, fl = lambda: r.choice((r.uniform(-9, 9), r.randint(-5, 5))), lambda: r.randint(-300, 300), lambda: r.randint(0, 1)
    w = lambda: "".join(r.choice("abcd./_") for _ in range(r.randint(1, 30)))
    if kind == "track":
        return {n: d() for n in ("dacc", "dangle", "dvxmax", "dvxmin", "dvymax", "dvymin", "dvzmax", "dvzmin")} | {n: i() for n in ("dsumg", "dn", "dnx", "dny")} | {"add": fl()}
    if kind == "volume":
        return {n + "." + str(k): d() for n in ("X_lay", "Zmin_lay", "Zmax_lay") for k in (0, 1)} | {n: d() for n in ("cn", "cnx", "cny", "csumg", "eps0", "corrmin")}
    if kind == "sequence":
        return {"first": i(), "last": i(), "num_cams": 4} | {"img.%d" % k: w() for k in range(4)}
    if kind == "targpar":
        return {"discont": i(), "sumg_min": i(), "cr_sz": i()} | {"gvthres.%d" % k: i() for k in range(4)} | {a + b: i() for a in ("nn", "nx", "ny") for b in ("min", "max")}
    media = {"nlay": r.randint(1, 3), "n1": d(), "n2.0": d(), "d.0": d(), "n3": d()}
    if kind == "media":
        return media
    return media | {"num_cams": 4, "hp_flag": fl(), "allCam_flag": fl(), "tiff_flag": fl(), "imx": i(), "imy": i(), "pix_x": d(), "pix_y": d(), "chfield": r.randint(0, 2)} | \
        {n + ".%d" % k: w() for n in ("img", "cal") for k in range(4)}


def media(m, v):
    m.set_n1(v["n1"]); m.set_n3(v["n3"]); m.set_layers([v["n2.0"], 1., 2.][:v["nlay"]], [v["d.0"], 3., 4.][:v["nlay"]])
    return m


def build(kind, v, r):
    if kind == "track":
        t = TrackingParams()
        for n in v:
            getattr(t, "set_" + n)(v[n])
        return t
    if kind == "volume":
        o = VolumeParams()
        for n in ("cn", "cnx", "cny", "csumg", "eps0", "corrmin"):
            getattr(o, "set_" + n)(v[n])
        for n in ("X_lay", "Zmin_lay", "Zmax_lay"):
            getattr(o, "set_" + n)((v[n + ".0"], v[n + ".1"]))
        return o
    if kind == "sequence":
        o = SequenceParams(num_cams=v["num_cams"])
        o.set_first(v["first"]); o.set_last(v["last"])
        for k in range(min(4, v["num_cams"])):
            o.set_img_base_name(k, v["img.%d" % k])
        return o
    if kind == "targpar":
        o = TargetParams()
        o.set_max_discontinuity(v["discont"]); o.set_min_sum_grey(v["sumg_min"]); o.set_cross_size(v["cr_sz"])
        o.set_grey_thresholds([v["gvthres.%d" % k] for k in range(4)])
        o.set_pixel_count_bounds((v["nnmin"], v["nnmax"])); o.set_xsize_bounds((v["nxmin"], v["nxmax"])); o.set_ysize_bounds((v["nymin"], v["nymax"]))
        return o
    if kind == "media":
        return media(MultimediaParams(), v)
    o = ControlParams(v["num_cams"])
    for n in ("hp_flag", "allCam_flag", "tiff_flag", "chfield"):
        getattr(o, "set_" + n)(v[n])
    o.set_image_size((v["imx"], v["imy"])); o.set_pixel_size((v["pix_x"], v["pix_y"]))
    for k in range(min(4, v["num_cams"])):
        o.set_img_base_name(k, v["img.%d" % k]); o.set_cal_img_base_name(k, v["cal.%d" % k])
    media(o.get_multimedia_params(), v)
    return o


for k in cases():
    r = random.Random(k["seed"])
    v = mk(k["type"], r)
    w = dict(v)
    for f in k["diff"]:
        if f == "num_cams":
            w[f] = 5
        elif isinstance(v[f], str):
            w[f] = v[f] + "x" if r.random() < .5 else v[f][:-1] + "e"
        elif f in ("hp_flag", "allCam_flag", "tiff_flag", "add"):
            w[f] = 1 - v[f]
        elif f == "chfield":
            w[f] = (v[f] + 1) % 3
        elif f == "nlay":
            w[f] = v[f] % 3 + 1
        else:
            w[f] = v[f] + 1
    a, b, c = build(k["type"], v, r), build(k["type"], w, r), build(k["type"], w, r)
    answer(dict(type=k["type"], diff=k["diff"], ab=int(a == b), ba=int(b == a), aa=int(a == a), bb=int(b == c), ne_ab=int(a != b), ne_ba=int(b != a),
                none=int(a == None or not (a != None)), same=1, py=1))
