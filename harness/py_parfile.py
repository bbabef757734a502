"""C14: the same files through the Python bindings."""
import os
import numpy as np
from pycommon import *
from optv.parameters import *
from optv.calibration import Calibration


def R(v):
    s = "%.8f" % v
    return "0.00000000" if s == "-0.00000000" else s


def I(v):
    return "%d" % v


def tree(d):
    return sorted((f, open(os.path.join(d, f), "rb").read()) for f in os.listdir(d) if f not in SKIP)


def track(p):
    t = TrackingParams()
    t.read_track_par(p)
    r = {n: R(getattr(t, "get_" + n)()) for n in ("dvxmin", "dvxmax", "dvymin", "dvymax", "dvzmin", "dvzmax", "dangle", "dacc")}
    r.update({n: I(getattr(t, "get_" + n)()) for n in ("add", "dsumg", "dn", "dnx", "dny")})
    return r


def volume(p):
    v = VolumeParams()
    v.read_volume_par(p)
    r = {n + str(i): R(getattr(v, "get_" + n)()[i]) for n in ("X_lay", "Zmin_lay", "Zmax_lay") for i in (0, 1)}
    r.update({n: R(getattr(v, "get_" + n)()) for n in ("cnx", "cny", "cn", "csumg", "corrmin", "eps0")})
    return r


def name(x):
    return x.decode("utf8") if isinstance(x, bytes) else x


def sequence(p, cams):
    s = SequenceParams(num_cams=cams)
    s.read_sequence_par(p, cams)
    return dict({"img%d" % i: name(s.get_img_base_name(i)) for i in range(cams)}, first=I(s.get_first()), last=I(s.get_last()))


def control(p, cams):
    c = ControlParams(cams)
    c.read_control_par(p)
    r = {"num_cams": I(c.get_num_cams())}
    for i in range(c.get_num_cams()):
        r["img%d" % i] = name(c.get_img_base_name(i)); r["cal%d" % i] = name(c.get_cal_img_base_name(i))
    r.update({n: I(getattr(c, "get_" + n)()) for n in ("hp_flag", "allCam_flag", "tiff_flag", "chfield")})
    r["imx"], r["imy"] = map(I, c.get_image_size())
    r["pix_x"], r["pix_y"] = map(R, c.get_pixel_size())
    m = c.get_multimedia_params()
    r.update(n1=R(m.get_n1()), n2=R(m.get_n2()[0]), n3=R(m.get_n3()), d=R(m.get_d()[0]), nlay=I(m.get_nlay()))
    return r


def target(p):
    t = TargetParams()
    t.read(p)
    r = {"gvthres%d" % i: I(g) for i, g in enumerate(t.get_grey_thresholds())}
    r["discont"], r["sumg_min"], r["cr_sz"] = I(t.get_max_discontinuity()), I(t.get_min_sum_grey()), I(t.get_cross_size())
    for k, b in (("nn", t.get_pixel_count_bounds()), ("nx", t.get_xsize_bounds()), ("ny", t.get_ysize_bounds())):
        r[k + "min"], r[k + "max"] = I(b[0]), I(b[1])
    return r


def cal_rec(c):
    r = {}
    for names, v in ((("x0", "y0", "z0"), c.get_pos()), (("omega", "phi", "kappa"), c.get_angles()), (("xh", "yh", "cc"), c.get_primary_point()),
                     (("vec_x", "vec_y", "vec_z"), c.get_glass_vec()), (("k1", "k2", "k3"), c.get_radial_distortion()),
                     (("p1", "p2"), c.get_decentering()), (("scx", "she"), c.get_affine())):
        r.update({n: R(x) for n, x in zip(names, v)})
    for i in range(3):
        for j in range(3):
            r["dm%d%d" % (i, j)] = R(c.get_rotation_matrix()[i][j])
    return r, [[q(x, 1e4) for x in row] for row in c.get_rotation_matrix()]


for k in cases():
    d, rec = k.pop("dir"), dict(k.pop("echo"), op=k["op"], ok=1)
    SKIP = ()
    main = os.path.join(d, "main").encode()
    before = tree(d)
    try:
        if k["op"] == "read":
            rec["rec"] = {"track": lambda: track(main), "volume": lambda: volume(main), "sequence": lambda: sequence(main, k["size"]),
                          "control": lambda: control(main, k["size"]), "target": lambda: target(main)}[k["fmt"]]()
        elif k["op"] == "cal":
            c = Calibration()
            c.from_file(main, os.path.join(d, "add").encode() if k["amode"] else None, os.path.join(d, "fb").encode() if k["fmode"] else None)
            rec["rec"], rec["dm"] = cal_rec(c)
        elif k["op"] == "wcal":
            v = np.array(k["v"], float)
            c = Calibration(v[0:3], v[3:6], v[15:18], v[21:24], v[24:26], v[26:28], v[18:21])
            rec["toks"] = k["toks"][:6] + [R(round(x, 7)) for x in c.get_rotation_matrix().ravel()] + k["toks"][15:]
            SKIP = ("main", "add")
            before = tree(d)
            ori = os.path.join(d, "none/main" if k["where"] == "no-dir" else "main").encode()
            add = os.path.join(d, "none/add" if k["where"] == "no-add-dir" else "add").encode()
            rec["wrote"] = 1
            try:
                c.write(ori, add)
            except IOError:
                rec["wrote"] = 0
            c = Calibration()
            c.from_file(ori, add)
            rec["rec"], rec["dm"] = cal_rec(c)
            rec["rec"].update({"dm%d%d" % (i, j): R(round(c.get_rotation_matrix()[i][j], 7)) for i in range(3) for j in range(3)})
    except IOError:
        rec["ok"] = 0
    rec["same"] = int(tree(d) == before)
    answer(rec)
