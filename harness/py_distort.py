"""C19 in Python: bulk distortion and correction on arrays of every memory layout."""
import numpy as np
from optv.calibration import Calibration
from optv.transforms import distort_arr_brown_affine, correct_arr_brown_affine, distorted_to_flat
from pyarrays import call
from pycommon import answer, cases, q


def prs(a):
    return [[q(x, 1e8), q(y, 1e8)] for x, y in a]


NAMES = ("k1", "k2", "k3", "p1", "p2", "scx", "she")
UNIT = (1e-6, 1e-8, 1e-10, 1e-6, 1e-6, 1e-3, 1e-3)
for k in cases():
    d = k["d"]
    v = [a * u for a, u in zip(d, UNIT)]
    v[5] = (1000 + d[5]) / 1000.
    cal = Calibration(np.zeros(3), np.zeros(3), np.array([k["xh"] / 1000., k["yh"] / 1000., 50.]),
                      np.array(v[:3]), np.array(v[3:5]), np.array(v[5:]), np.array([0., 0., 1.]))
    before = [x.copy() for x in (cal.get_pos(), cal.get_angles(), cal.get_primary_point(), cal.get_radial_distortion(), cal.get_decentering(), cal.get_affine())]
    pts = np.array(k["pts"], float).reshape(-1, 2)
    h = np.array([k["xh"], k["yh"]]) / 1000.
    dist, s1 = call(distort_arr_brown_affine, pts, cal, k["inl"], k["outl"])
    rough, s2 = call(correct_arr_brown_affine, dist, cal, k["inl"], k["outl"])
    tol = 1e-5 if k["tol"] is None else k["tol"] * 1e-9
    flat = (lambda a, c, out=None: distorted_to_flat(a, c, out)) if k["tol"] is None else (lambda a, c, out=None: distorted_to_flat(a, c, out, tol))
    back, s3 = call(flat, dist, cal, k["inl"], k["outl"])
    fl, s4 = call(flat, pts, cal, k["inl"], k["outl"])
    forth, s5 = call(distort_arr_brown_affine, fl + h, cal, k["inl"], k["outl"])
    refused = 1
    for f in (distort_arr_brown_affine, correct_arr_brown_affine, distorted_to_flat):
        for bad in ((np.zeros((2, 3)), None), (np.zeros((3, 2)), np.zeros((2, 2)))):
            try:
                f(bad[0], cal, bad[1])
                refused = 0
            except TypeError:
                pass
    after = (cal.get_pos(), cal.get_angles(), cal.get_primary_point(), cal.get_radial_distortion(), cal.get_decentering(), cal.get_affine())
    size = q(np.abs(dist - pts).sum(axis=1).max(), 1e8)
    answer({"op": "grid", "d": dict(zip(NAMES, d)), "neutral": int(not any(d)), "size": size, "pts": k["pts"], "shift": prs(dist - pts), "back": prs(back - (pts - h)),
            "forth": prs(forth - pts), "same": prs(dist - pts), "rough": prs(rough - pts), "tol": 20 + int(tol * 1e9), "roughtol": 20 + size // 8,
            "kept": int(s1 and s2 and s3 and s4 and s5 and refused and all(np.array_equal(a, b) for a, b in zip(before, after)))})
