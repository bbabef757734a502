import sys, json
from optv.tracking_framebuf import Target, TargetArray
from pycommon import answer, cases
for keys in cases():
    n = len(keys)
    ta = TargetArray(n)
    for i, k in enumerate(keys):
        t = ta[i]
        t.set_pnr(90 - i); t.set_pos([2 * i, k]); t.set_pixel_counts(-i, i + 7, i + 8); t.set_sum_grey_value(i + 9); t.set_tnr(i + 10)
    ta.sort_y()
    out = []
    for t in ta:
        x, y = t.pos()
        a, b, c = t.count_pixels()
        out.append([t.pnr(), int(y), int(x), a, b, c, t.sum_grey_value(), t.tnr()])
    answer({"kind": "py", "keys": keys, "out": out})
