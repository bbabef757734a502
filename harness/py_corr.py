import random
import numpy as np
from optv.tracking_framebuf import TargetArray
from optv.correspondences import MatchedCoords, correspondences
from optv.imgcoord import image_coordinates
from optv.transforms import convert_arr_metric_to_pixel
from pycommon import answer, cases, q
from pyscene import *

for c in cases():
    rng = random.Random(c["seed"])
    cams, n = c["cams"], c["n"]
    cals, cp, vp = cameras(cams), control(cams, rng.choice((1., 1.33))), volume()
    pts = np.array([[rng.uniform(-28, 28), rng.uniform(-24, 24), rng.uniform(-18, 18)] for _ in range(n)]).reshape(n, 3)
    targs, where, mcs = [], [], []
    for k in range(cams):
        seen = [i for i in range(n) if rng.random() < .9]
        rng.shuffle(seen)
        ta = TargetArray(len(seen))
        pix = convert_arr_metric_to_pixel(image_coordinates(pts[seen].reshape(-1, 3), cals[k], cp.get_multimedia_params()), cp) if seen else []
        for j, i in enumerate(seen):
            t = ta[j]
            t.set_pos(pix[j]); t.set_pnr(j); t.set_pixel_counts(10, 3, 3); t.set_sum_grey_value(200); t.set_tnr(-7)
        targs.append(ta); where.append(seen)
        mcs.append(MatchedCoords(ta, cp, cals[k]))
    pos, ids, total = correspondences(targs, mcs, cals, vp, cp)
    answer({"kind": "py", "cams": cams, "n": [len(w) for w in where], "total": int(total),
            "ids": [[[int(g[k][i]) for k in range(cams)] for i in range(g.shape[1])] for g in ids],
            "pos": [[[[q(v, 1000) for v in g[k][i]] for k in range(cams)] for i in range(g.shape[1])] for g in pos],
            "targ": [[[q(v, 1000) for v in t.pos()] for t in ta] for ta in targs],
            "tnr": [[t.tnr() for t in ta] for ta in targs],
            "flat": [[[q(v, 100000) for v in p] for p in m.as_arrays()[0]] for m in mcs],
            "flatnr": [[int(v) for v in m.as_arrays()[1]] for m in mcs]})
