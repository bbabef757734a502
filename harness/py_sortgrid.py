"""C16 in Python: match_detection_to_ref on arrays of every memory layout."""
import numpy as np
from optv.calibration import Calibration
from optv.orientation import match_detection_to_ref
from optv.parameters import ControlParams
from optv.tracking_framebuf import TargetArray
from pyarrays import lay
from pycommon import answer, cases, q


def row(t):
    return [q(t.pos()[0], 64), q(t.pos()[1], 64), *t.count_pixels(), t.sum_grey_value(), t.tnr()]


for k in cases():
    cal = Calibration(np.array([0., 0., 64.]), np.zeros(3), np.array([0., 0., 64.]), np.zeros(3), np.zeros(2), np.array([1., 0.]), np.array([0., 0., 1.]))
    cp = ControlParams(1, [], tuple(k["im"]), (1., 1.))
    mm = cp.get_multimedia_params()
    mm.set_n1(1.); mm.set_layers([1.], [2.]); mm.set_n3(1.)
    ta = TargetArray(len(k["tg"]))
    for i, (x, y) in enumerate(k["tg"]):
        t = ta[i]
        t.set_pos((x / 64., y / 64.)); t.set_pnr(i * 3 % 7 - 1); t.set_pixel_counts(10 + i, 3 + i, 4); t.set_sum_grey_value(100 + i); t.set_tnr(i % 4 - 1)
    before = [row(t) + [t.pnr()] for t in ta]
    if k["default"]:
        k["eps"] = 25
    a = lay(k["fix"], k["inl"], 3)
    a /= 4.
    keep = a.copy()
    res = match_detection_to_ref(cal, a, ta, cp) if k["default"] else match_detection_to_ref(cal, a, ta, cp, eps=k["eps"])
    same = np.array_equal(a, keep) and len(res) == len(k["fix"])
    answer({"kind": "grid", "exact": 1, "m": 0, "im": k["im"], "eps": k["eps"], "fix": k["fix"], "tg": [r[:-1] for r in before], "proj": [],
            "same": int(same and before == [row(t) + [t.pnr()] for t in ta]),
            "out": [[-999] if t.pnr() == -999 else [t.pnr()] + row(t) for t in res]})
