import numpy as np
from pycommon import *
from optv.segmentation import target_recognition
from optv.parameters import ControlParams, TargetParams
def dots(c):
    """An image of many spots of one pixel each, every second pixel of every second row."""
    w, h = c["w"], c["h"]
    img = np.zeros((h, w), np.uint8)
    img[2:h - 1:2, 2:w - 1:2] = c["grey"]
    tp = TargetParams(gvthresh=[5] * 4, discont=3, pixel_count_bounds=(1, 9), xsize_bounds=(1, 9), ysize_bounds=(1, 9), min_sum_grey=1)
    ts = target_recognition(img, tp, 0, ControlParams(1, image_size=(w, h)))
    got = [(*t.count_pixels(), t.sum_grey_value(), *(q(v, 1000) for v in t.pos()), t.tnr(), t.pnr()) for t in ts]
    answer({"kind": "dots", "w": w, "h": h, "grey": c["grey"], "got": got})


for c in cases():
    if "grey" in c:
        dots(c)
        continue
    w, h, lim, win = c["w"], c["h"], c["lim"], c["win"]
    th = [255 - c["thres"]] * 4
    th[c["cam"]] = c["thres"]
    tp = TargetParams(gvthresh=th, discont=c["disco"], pixel_count_bounds=(lim[0], lim[1]), xsize_bounds=(lim[2], lim[3]),
                      ysize_bounds=(lim[4], lim[5]), min_sum_grey=lim[6])
    cp = ControlParams(4, image_size=(w, h))
    img = np.array(c["img"], dtype=np.uint8).reshape(h, w)
    lay = c["layout"]
    if lay == 1:
        img = np.asfortranarray(img)
    elif lay == 2:
        big = np.full((h * 2, w * 2), 77, np.uint8); big[::2, ::2] = img; img = big[::2, ::2]
    keep = img.copy()
    if c["full"]:
        ts = target_recognition(img, tp, c["cam"], cp)
        win = [0, w, 0, h]
    else:
        ts = target_recognition(img, tp, c["cam"], cp, subrange_x=(win[0], win[1]), subrange_y=(win[2], win[3]))
    got = []
    for t in ts:
        n, nx, ny = t.count_pixels(); x, y = t.pos()
        got.append({"n": n, "nx": nx, "ny": ny, "sumg": t.sum_grey_value(), "x": q(x, 1000), "y": q(y, 1000), "tnr": t.tnr(), "pnr": t.pnr()})
    answer({"kind": "image", "w": w, "h": h, "thres": c["thres"], "disco": c["disco"], "win": win, "lim": lim, "img": c["img"],
            "same": int((keep == img).all()), "got": got})
