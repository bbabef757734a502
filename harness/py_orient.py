"""C17 in Python: full_calibration and external_calibration before and after."""
import math, random
import numpy as np
from optv.calibration import Calibration
from optv.imgcoord import image_coordinates
from optv.orientation import external_calibration, full_calibration
from optv.tracking_framebuf import TargetArray
from optv.transforms import convert_arr_metric_to_pixel, convert_arr_pixel_to_metric
from optv.parameters import ControlParams
from pyarrays import lay, intact
from pycommon import answer, cases, q

UNIT = [1e-6] * 3 + [1e-8] * 3 + [1e-6] * 3 + [1e-9, 1e-11, 1e-13, 1e-9, 1e-9, 1e-8, 1e-8, 1e-4, 1e-4, 1e-4]


def params(c):
    xh, yh, cc = c.get_primary_point()
    return [*c.get_pos(), *c.get_angles(), cc, xh, yh, *c.get_radial_distortion(), *c.get_decentering(), *c.get_affine(), *c.get_glass_vec()]


def diff(a, b):
    return [q(x - y, 1 / u) for x, y, u in zip(a, b, UNIT)]


def build(p):
    return Calibration(np.array(p[:3]), np.array(p[3:6]), np.array([p[7], p[8], p[6]]), np.array(p[9:12]), np.array(p[12:14]), np.array(p[14:16]), np.array(p[16:19]))


def rotation(w, f, k):
    cw, sw, cf, sf, ck, sk = math.cos(w), math.sin(w), math.cos(f), math.sin(f), math.cos(k), math.sin(k)
    return np.array([[cf * ck, -cf * sk, sf], [cw * sk + sw * sf * ck, cw * ck - sw * sf * sk, -sw * cf], [sw * sk - cw * sf * ck, sw * ck + cw * sf * sk, cw * cf]])


for k in cases():
    rng = random.Random(k["seed"])
    u = rng.uniform
    x, y, z = u(-60, 60), u(-60, 60), u(170, 230)
    r = math.sqrt(x * x + y * y + z * z)
    true = [x, y, z, math.atan2(-y, z), math.asin(x / r), u(-.2, .2), u(50, 70), 0, 0, 0, 0, 0, 0, 0, 1, 0, u(-2, 2), u(-2, 2), 40.]
    if k["dist"]:
        true[7:16] = [u(0, .2), u(-.2, 0), u(0, 2e-4), u(0, 1e-6), u(0, 1e-9), u(0, 2e-5), u(-2e-5, 0), u(1, 1.01), u(0, .01)]
    cal = build(true)
    cp = ControlParams(1, [], (1000, 900), (.02, .021))
    mm = cp.get_multimedia_params()
    mm.set_n1(1.); mm.set_layers([1.46 if k["water"] else 1.], [5.]); mm.set_n3(1.33 if k["water"] else 1.)
    n = k["n"]
    fix = np.array([[(i % 4) * 10 - 15 + u(0, 4), (i // 4 % 4) * 10 - 15 + u(0, 4), (i * 7 % 5) * 6 - 12 + u(0, 4)] for i in range(n)]).reshape(-1, 3)
    pix = convert_arr_metric_to_pixel(image_coordinates(fix, cal, mm), cp)
    start = list(true)
    for i in range(3):
        start[i] += k["pert"] * u(-2, 2)
        start[i + 3] += k["pert"] * u(-.01, .01)
    for i in range(9, 16):
        if k["pert"] and (k["shift"] == 2 or k["shift"] and k["flags"][i - 6]):
            start[i] += (.004 if i > 13 else 1e-5 if i == 9 or i > 11 else 1e-7 if i == 10 else k.get("k3", 1e-9)) * u(-.5, .5)
    cal = build(start)
    start = params(cal)
    arr = lay(fix, k["layout"], 3)
    keep = arr.copy()
    resi, used, ok, shape = [], [], 1, 1
    bad = dict(k["bad"])
    pnr = [bad.get(i, i) for i in range(n)]
    if k["kind"] == "fit":
        ta = TargetArray(n)
        for i in range(n):
            t = ta[i]
            t.set_pnr(pnr[i]); t.set_pos(pix[i] + (u(50, 90) if i in bad else 0))
        try:
            res, used, err = full_calibration(cal, arr, ta, cp, k["names"])
            used = [int(v) for v in used]
            resi = [q(v, 1e6) for row in res for v in row]
            shape = res.shape == (len(used), 2) and len(err) >= 16 and bool(np.all(np.isfinite(err[:16])) or len(used) == 3)
            shape = shape and used == [i for i in range(n) if pnr[i] == i]
        except ValueError:
            ok = 0
    else:
        parr = lay(pix, rng.choice(("c", "f", "rows2", "rev")))
        pk = parr.copy()
        ok = external_calibration(cal, arr, parr, cp)
        shape = ok in (True, False) and np.array_equal(pk, parr)
        ok = int(ok)
    end = params(cal)
    if n:
        # functions asked for more points than there are refuse
        for f in (lambda: external_calibration(build(start), fix, pix[:-1], cp), lambda: full_calibration(build(start), fix, TargetArray(n - 1), cp),
                  lambda: external_calibration(build(start), fix[:, :2], pix, cp)):
            try:
                f()
                shape = 0
            except ValueError:
                pass
    met = image_coordinates(fix, cal, mm)
    back = convert_arr_metric_to_pixel(met, cp)
    mes = convert_arr_pixel_to_metric(pix, cp)
    rep = [[q(back[i][0] - pix[i][0], 1000), q(back[i][1] - pix[i][1], 1000), q(met[i][0] - mes[i][0], 1e6), q(met[i][1] - mes[i][1], 1e6)] for i in range(n)]
    answer(dict(kind=k["kind"], water=k["water"], n=n, flags=k["flags"], use=0, pert=k["pert"], shift=k["shift"], dist=k["dist"], noise=0, pnr=pnr, scr=[], ok=ok,
                untouched=int(end == start), inputs=int(bool(np.array_equal(arr, keep) and intact(arr) and shape)), same=1,
                rot=q(np.max(np.abs(cal.get_rotation_matrix() - rotation(*cal.get_angles()))), 1e9), moved=diff(end, start), off=diff(end, true),
                neutral=int(end[9:16] == [0, 0, 0, 0, 0, 1, 0]), rep=rep, resi=resi, sigma=0, near=[]))
