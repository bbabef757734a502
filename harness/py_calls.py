"""C23: array calls of the bindings, next to the library called for each element (child process H_CALLS)."""
import os, subprocess, sys
import numpy as np
from pycommon import *
from pyarrays import lay, intact
from optv.parameters import *
from optv.calibration import Calibration
from optv.imgcoord import image_coordinates, flat_image_coordinates
from optv.orientation import point_positions, dumbbell_target_func
from optv.transforms import convert_arr_pixel_to_metric, convert_arr_metric_to_pixel, correct_arr_brown_affine, distort_arr_brown_affine, distorted_to_flat
from optv.epipolar import epipolar_curve
from optv.correspondences import MatchedCoords
from optv.tracking_framebuf import TargetArray, Frame

env = dict(os.environ)
env.pop("LD_PRELOAD", None)
child = None


def library(fn, c, p1, p2, n, m, a):
    global child
    if child is None:
        child = subprocess.Popen([os.environ["H_CALLS"]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env)
    w = [fn, len(c["cams"])] + c["mm"] + c["img"] + c["vol"] + [x for cam in c["cams"] for x in cam] + [p1, p2, n, m] + list(a)
    child.stdin.write(" ".join(repr(x) if isinstance(x, float) else str(x) for x in w) + "\n")
    child.stdin.flush()
    while True:
        s = child.stdout.readline()
        if not s:
            raise SystemExit("library harness died")
        if s.startswith("@ "):
            return json.loads(s[2:])


def S(a):
    return ["%.17g" % (x if x else 0.) for x in np.asarray(a, dtype=float).ravel()]


def cal(k):
    return Calibration(*[np.array(k[i:j], float) for i, j in ((0, 3), (3, 6), (6, 9), (9, 12), (12, 14), (14, 16), (16, 19))])


def lay3(a, how):
    """(n, cams, 2) arrays of several memory layouts."""
    if how == "c":
        return a.copy()
    if how == "f":
        return np.asfortranarray(a)
    if how == "t":
        return np.ascontiguousarray(a.transpose(1, 0, 2)).transpose(1, 0, 2)
    if how == "rev":
        return np.ascontiguousarray(a[::-1, :, ::-1])[::-1, :, ::-1]
    big = np.full((2 * a.shape[0], a.shape[1] + 1, 5), -777.)
    v = big[::2, 1:, 1:5:3]
    v[...] = a
    return v


def attempt(f):
    try:
        f()
        return ""
    except Exception as x:
        return type(x).__name__


def frame(c):
    n, cams = c["n"], len(c["targs"])
    with open("rt.3", "w") as f:
        f.write("%d\n" % n + "".join("%d %9.3f %9.3f %9.3f %d %d %d %d\n" % ((i + 1,) + tuple(x / 1000. for x in c["pos"][i]) + tuple(c["corr"][i])) for i in range(n)))
    with open("li.3", "w") as f:
        f.write("%d\n" % n + "".join("-1 -2 %.3f %.3f %.3f\n" % tuple(x / 1000. for x in c["pos"][i]) for i in range(n)))
    for k, ts in enumerate(c["targs"]):
        with open("t%d.0003_targets" % k, "w") as f:
            f.write("%d\n" % len(ts) + "".join("%d %.4f %.4f 1 1 1 1 -1\n" % (i, x / 8., y / 8.) for i, (x, y) in enumerate(ts)))
    names = [b"t%d." % k for k in range(cams)]
    fr = Frame(cams, b"rt", b"li", target_file_base=names, frame_num=3) if c["how"] == 0 else Frame(cams)
    before = attempt(lambda: fr.positions())
    empty = 1 if c["how"] == 0 else int(len(fr.positions()) == 0 and len(fr.target_positions_for_camera(0)) == 0)
    for _ in range(c["how"]):
        fr.read(b"rt", b"li", names, 3, None)
    pos = [[q(x, 1000) for x in p] for p in fr.positions()]
    t2 = [[[NONE if np.isnan(x) else q(x, 8) for x in p] for p in fr.target_positions_for_camera(k)] for k in range(cams)]
    return dict(c, fn="frame", got=pos, seen=t2, empty=int(empty and not before),
                refused=[["IndexError", attempt(lambda: fr.target_positions_for_camera(cams))], ["IndexError", attempt(lambda: fr.target_positions_for_camera(-1))]])


NONE = -999999

for c in cases():
    fn = c["fn"]
    if fn == "frame":
        answer(frame(c))
        continue
    cams = [cal(k) for k in c["cams"]]
    mm, (imx, imy, px, py), (zmin, zmax, xmin, xmax) = c["mm"], c["img"], c["vol"]
    cp = ControlParams(len(cams), [], (imx, imy), (px, py), mm[0], [mm[1]], [mm[2]], mm[3])
    vp = VolumeParams(x_span=(xmin, xmax), z_spans=[(zmin, zmax)] * 2)
    m, n = c["m"], c["n"]
    a = np.array(c["a"], float).reshape(n, m)
    runs, refused = [], []

    def run(how, f, keep=None, given=()):
        copies = [x.copy() for x in given]
        r = f()
        runs.append({"how": how, "v": S(r), "kept": int(all(np.array_equal(x, y) and intact(x) for x, y in zip(given, copies)))})

    if fn in ("flat", "image"):
        f = flat_image_coordinates if fn == "flat" else image_coordinates
        med = cp.get_multimedia_params() if c["alt"] else MultimediaParams(n1=mm[0], n2=[mm[1]], d=[mm[2]], n3=mm[3])
        want = library(fn, c, 0., 0., n, m, c["a"])
        for lin in c["layouts"]:
            x = lay(a, lin, 3)
            run(lin, lambda: f(x, cams[0], med), given=[x])
            for lout in c["layouts"]:
                o = lay(np.zeros((n, 2)), lout, 2)

                def go():
                    r = f(x, cams[0], med, o) if c["alt"] else f(x, cams[0], med, output=o)
                    return o if np.shares_memory(r, o) or n == 0 else r * 0 + 1e9
                run(lin + ">" + lout, go, given=[x])
                if not intact(o):
                    runs[-1]["kept"] = 0
        refused = [["TypeError", attempt(lambda: f(np.zeros((3, 2)), cams[0], med))], ["TypeError", attempt(lambda: f(np.zeros((3, 4)), cams[0], med))],
                   ["TypeError", attempt(lambda: f(a, cams[0], med, np.zeros((n, 3))))], ["TypeError", attempt(lambda: f(a, cams[0], med, np.zeros((n + 1, 2))))]]
    elif fn[:3] == "to_":
        f, obj = {"to_metric": (convert_arr_pixel_to_metric, cp), "to_pixel": (convert_arr_metric_to_pixel, cp), "to_corrected": (correct_arr_brown_affine, cams[0]),
                  "to_distorted": (distort_arr_brown_affine, cams[0]), "to_flat": (distorted_to_flat, cams[0])}[fn]
        more = {"tol": c["p1"]} if fn == "to_flat" and c["alt"] else {}
        want = library(fn, c, c["p1"] if more else 1e-5, 0., n, m, c["a"])
        for lin in c["layouts"]:
            x, y = lay(a, lin), lay(a, lin)
            run(lin, lambda: f(x, obj, **more), given=[x])
            for lout in c["layouts"] + ["same"]:
                o = y if lout == "same" else lay(np.zeros((n, 2)), lout)

                def go():
                    r = f(y if lout == "same" else x, obj, out=o, **more)
                    return o if np.shares_memory(r, o) or n == 0 else r * 0 + 1e9
                run(lin + ">" + lout, go, given=[x])
                if not intact(o):
                    runs[-1]["kept"] = 0
        refused = [["TypeError", attempt(lambda: f(np.zeros((3, 3)), obj))], ["TypeError", attempt(lambda: f(np.zeros((3, 1)), obj))],
                   ["TypeError", attempt(lambda: f(a, obj, np.zeros((n, 3))))], ["TypeError", attempt(lambda: f(a, obj, np.zeros((n + 1, 2))))]]
    elif fn in ("position", "single"):
        want = library(fn, c, 0., 0., n, m, c["a"])
        t = a.reshape(n, len(cams), 2)
        both = lambda r: np.concatenate((r[0], r[1][:, None]), axis=1)
        for how in ("c", "f", "t", "rev", "part"):
            x = lay3(t, how)
            run(how, lambda: both(point_positions(x, cp, cams, vp)), given=[])
            if not np.array_equal(x, t):
                runs[-1]["kept"] = 0
        if n:
            run("tuple", lambda: np.concatenate([both(point_positions(t[i:i + 1], cp, cams, vp)) for i in range(n)]))
        if len(cams) > 1:
            refused.append(["ValueError", attempt(lambda: point_positions(t, cp, cams + cams[:1], vp))])
            refused.append(["ValueError", attempt(lambda: point_positions(np.zeros((2, len(cams) + 1, 2)), cp, cams, vp))])
        refused.append(["ValueError", attempt(lambda: point_positions(np.zeros((2, len(cams), 3)), cp, cams, vp))])
        refused.append(["ValueError", attempt(lambda: point_positions(np.zeros((2, len(cams), 1)), cp, cams, vp))])
        refused.append(["ValueError", attempt(lambda: point_positions(t, cp, [], vp))])
    elif fn == "dumbbell":
        want = library(fn, c, c["p1"], c["p2"], n, m, c["a"])
        t = a.reshape(n, len(cams), 2)
        for how in c["how"]:
            x = lay3(t, how)
            run(how, lambda: [dumbbell_target_func(x, cp, cams, c["p1"], c["p2"])])
        refused.append(["ValueError", attempt(lambda: dumbbell_target_func(np.zeros((2, len(cams) + 1, 2)), cp, cams, 1., 1.))])
        refused.append(["ValueError", attempt(lambda: dumbbell_target_func(np.zeros((2, len(cams), 3)), cp, cams, 1., 1.))])
    elif fn == "curve":
        k = int(c["p1"])
        want = [q(float(x), 1e5) for x in library(fn, c, float(k), 0., n, m, c["a"])]
        run("c", lambda: epipolar_curve(a[0].copy(), cams[0], cams[1], k, cp, vp))
        big = np.full(6, -777.)
        big[1::3] = a[0]
        run("strided", lambda: epipolar_curve(big[1::3], cams[0], cams[1], k, cp, vp))
        refused.append(["IndexError", attempt(lambda: epipolar_curve(a[0][:1], cams[0], cams[1], k, cp, vp))])
    elif fn == "matched":
        ta = TargetArray(n)
        for i in range(n):
            ta[i].set_pos(a[i])
            ta[i].set_pnr(c["pnr"][i])
        want = library(fn, c, c["p1"], 0., n, m, c["a"])
        mc = MatchedCoords(ta, cp, cams[0], c["p1"], bool(c["reset"])) if c["alt"] else MatchedCoords(ta, cp, cams[0], tol=c["p1"], reset_numbers=bool(c["reset"]))
        pos, pnr = mc.as_arrays()
        num = list(range(n)) if c["reset"] else c["pnr"]
        back = np.full((n, 2), 1e9)
        ok = len(pos) == n and bool(np.all(np.diff(pos[:, 0]) >= 0)) and sorted(pnr) == sorted(num) and [t.pnr() for t in ta] == num
        ok = ok and all(np.array_equal(ta[i].pos(), a[i]) for i in range(n))
        for x, k in zip(pos, pnr):
            back[num.index(k)] = x
        runs.append({"how": "arrays", "v": S(back), "kept": int(ok)})
        order = np.array([num[i] for i in c["order"]], dtype=np.int_)
        some = mc.get_by_pnrs(order)
        back = np.full((n, 2), 1e9)
        for x, i in zip(some, c["order"]):
            back[i] = x
        for i in range(n):
            if i not in c["order"]:
                back[i] = [float(x) for x in want[2 * i:2 * i + 2]]
        runs.append({"how": "numbers", "v": S(back), "kept": int(len(some) == len(order))})
        miss = mc.get_by_pnrs(np.array([9999999], dtype=np.int_))
        runs.append({"how": "missing", "v": want, "kept": int(miss.shape == (1, 2) and bool(np.all(miss == miss[0, 0])) and not np.any(pos == miss[0, 0]))})
    if fn == "curve":
        for r in runs:
            r["v"] = [q(float(x), 1e5) for x in r["v"]]
    answer({"fn": fn, "want": want, "runs": runs, "refused": refused})
