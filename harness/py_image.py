import os
import numpy as np
from pycommon import *
from optv.image_processing import preprocess_image
from optv.parameters import ControlParams
for c in cases():
    w, h = c["w"], c["h"]
    img = np.array(c["a"], dtype=np.uint8).reshape(h, w)
    out = None
    if c["layout"] == 1:
        img = np.asfortranarray(img)
    elif c["layout"] == 2:
        big = np.full((h * 2, w * 2), 77, np.uint8); big[::2, ::2] = img; img = big[::2, ::2]
    if c["given"]:
        out = np.full((h, w), 90, np.uint8, order="CF"[c["given"] - 1])
    keep = img.copy()
    cp = ControlParams(1, image_size=(w, h)); cp.set_chfield(c["sel"])
    name = None
    if c["file"]:
        name = "filter%d.par" % os.getpid()
        with open(name, "w") as f:
            v = [x / 4. for x in c["f"]]
            f.write("%g %g %g\n%g %g %g\n%g %g %g\n" % tuple(v) if c["file"] == 1 else "1 2 3\n 4 5\n")
    elif c["filt"] == 2:
        name = "missing%d.par" % os.getpid()
    try:
        res = preprocess_image(img, c["filt"], cp, lowpass_dim=c["s"], filter_file=name, output_img=out)
        ret = 1 if out is None or res is out else 2
    except Exception as e:
        if "failure" not in str(e):
            raise
        ret, res = 0, img
    if c["file"]:
        os.unlink(name)
    answer({"op": c["op"], "w": w, "h": h, "s": c["s"], "sel": c["sel"], "filt": c["filt"], "ret": ret, "f": c["f"], "a": c["a"],
            "out": [int(x) for x in res.ravel()], "same": int((img == keep).all())})
