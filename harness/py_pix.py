"""C18 in Python: bulk conversions on arrays of every memory layout."""
import numpy as np
from optv.parameters import ControlParams
from optv.transforms import convert_arr_pixel_to_metric, convert_arr_metric_to_pixel
from pyarrays import call
from pycommon import answer, cases, q


def pts(a, s):
    return [[q(x, s), q(y, s)] for x, y in a]


for k in cases():
    cp = ControlParams(1, [], (k["imx"], k["imy"]), (k["px"] / 1024., k["py"] / 1024.))
    cp.set_chfield(k["mode"])
    fwd, s1 = call(convert_arr_pixel_to_metric, np.array(k["pts"]) / 16., cp, k["inl"], k["outl"])
    back, s2 = call(convert_arr_metric_to_pixel, fwd, cp, k["inl"], k["outl"])
    m = np.array(k["mul"]) * np.array([k["px"], k["py"]]) / 16384.
    met2, s3 = call(convert_arr_metric_to_pixel, m, cp, k["inl"], k["outl"])
    # arguments that can't be converted are refused
    refused = 1
    for f in (convert_arr_pixel_to_metric, convert_arr_metric_to_pixel):
        for bad in ((np.zeros((2, 3)), None), (np.zeros((3, 2)), np.zeros((2, 2))), (np.zeros((2, 2)), np.zeros((3, 2)))):
            try:
                f(bad[0], cp, bad[1])
                refused = 0
            except TypeError:
                pass
    answer({"op": "grid", "imx": k["imx"], "imy": k["imy"], "px": k["px"], "py": k["py"], "mode": k["mode"], "old": 0,
            "pts": k["pts"], "fwd": pts(fwd, 16384), "back": pts(back, 32), "mets": pts(m, 16384), "met2": pts(met2, 32),
            "same": int(s1 and s2 and s3 and refused), "inl": k["inl"], "outl": str(k["outl"])})
