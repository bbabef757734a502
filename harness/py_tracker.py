"""Drives optv.tracker.Tracker on files in scratch directories (C03)."""
import os, shutil, tempfile
import numpy as np
from optv.calibration import Calibration
from optv.parameters import ControlParams, SequenceParams, TrackingParams, VolumeParams
from optv.tracker import Tracker
from pycommon import *
from pyscene import look_at_origin

FAR = 1e7
DIRS = [(0, 0, 1), (.6, 0, .8), (0, .6, .8), (-.6, 0, .8)]


def hush():
    """The library prints to stdout: answers go to a duplicate, everything else to stderr."""
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    sys.stdout = out


def put_frames(d, j):
    n = len(j["cams"])
    for i, (parts, tg) in enumerate(j["frames"]):
        f = j["first"] + i
        with open(f"{d}/res/rt_is.{f}", "w") as h:
            h.write(f"{len(parts)}\n")
            for k, p in enumerate(parts):
                corr = list(p[3:]) + [-1] * (4 - n)
                h.write("%4d %9.3f %9.3f %9.3f %4d %4d %4d %4d\n" % (k + 1, *p[:3], *corr))
        for c in range(n):
            with open(f"{d}/img/cam{c}.{f:04d}_targets" if f else f"{d}/img/cam{c}._targets", "w") as h:
                h.write(f"{len(tg[c])}\n")
                for k, t in enumerate(tg[c]):
                    h.write("%4d %9.4f %9.4f %5d %5d %5d %5d %5d\n" % (k, t[0] / 2, t[1] / 2, 9, 3, 3, 500, t[2]))


def make(d, j):
    n = len(j["cams"])
    cals = [look_at_origin(*[FAR * v for v in DIRS[c]], cc=FAR * .05) for c in j["cams"]]
    cp = ControlParams(n, [], (j["imx"], j["imy"]), (.01, .01))
    cp.set_image_size((j["imx"], j["imy"])); cp.set_pixel_size((.01, .01))
    mm = cp.get_multimedia_params()
    mm.set_n1(1.); mm.set_layers([1.], [1.]); mm.set_n3(1.)
    vp = VolumeParams(x_span=(-1000, 1000), z_spans=[(j["zlo"] / 2, j["zhi"] / 2)] * 2, pixels_x=.3, pixels_y=.3, pixels_tot=.3,
                      ref_gray=.01, epipolar_band=.02, min_correlation=0)
    v = [x / 100 for x in j["dv"]]
    tp = TrackingParams(accel_lim=j["dacc"] / 1000, angle_lim=j["dang"] / 1000, velocity_lims=[v[0:2], v[2:4], v[4:6]], add_particle=0)
    sp = SequenceParams(image_base=[f"{d}/img/cam{c}." for c in range(n)], frame_range=(j["first"], j["last"]))
    naming = {"corres": f"{d}/res/rt_is".encode(), "linkage": f"{d}/res/ptv_is".encode(), "prio": f"{d}/res/added".encode()}
    return Tracker(cp, vp, tp, sp, cals, naming)


def parse(path):
    try:
        with open(path) as h:
            lines = h.read().split("\n")
    except OSError:
        return None
    return [[float(v) for v in x.split()] for x in lines if x.strip()]


def state(d, j):
    """Per frame: the linkage, and everything else, as numbers."""
    res = []
    for f in range(j["first"], j["last"] + 1):
        rest = [parse(f"{d}/res/rt_is.{f}")] + [parse(f"{d}/img/cam{c}.{f:04d}_targets") for c in range(len(j["cams"]))]
        link = parse(f"{d}/res/ptv_is.{f}")
        prio = parse(f"{d}/res/added.{f}")
        # the linkage and the priorities file hold the same links
        if (link is None) != (prio is None) or (link is not None and [r[:5] for r in prio] != [r[:5] for r in link]):
            link = [["unequal"]]
        res.append((link, rest))
    return res


def ended(link):
    """The links of a frame stored without having been searched for successors."""
    return [link[0]] + [[r[0], -2.] + r[2:] for r in link[1:]]


def scratch(j):
    d = tempfile.mkdtemp(prefix="trk-", dir=".")
    d = os.path.abspath(d)
    os.mkdir(f"{d}/res"); os.mkdir(f"{d}/img")
    put_frames(d, j)
    return d


def hist(j):
    refs = {}
    d = scratch(j)
    t = make(d, j); t.full_forward(); refs["fwd"] = state(d, j)
    t = make(d, j); t.full_backward(); refs["back"] = state(d, j)
    # the last frame is not stored again by a backward run, though its links are part of the result
    shutil.rmtree(d)
    d = scratch(j)
    t = make(d, j)
    before = state(d, j)
    rest0 = [r[1] for r in refs["fwd"]]
    ret, cur, tags, other = [], [], [], []
    for op in j["ops"]:
        r = None
        if op == "r":
            t.restart()
        elif op == "s":
            r = t.step_forward()
        elif op == "f":
            t.finalize()
        elif op == "F":
            t.full_forward()
        else:
            t.full_backward()
        ret.append(1 if r is True else 0 if r is False else -1 if r is None else -9)
        cur.append(t.current_step())
        now = state(d, j)
        row, bad = [], 0
        for i, (link, rest) in enumerate(now):
            row.append([k for k, ok in (("none", link is None),
                                        ("fwd", link is not None and link == refs["fwd"][i][0]),
                                        ("back", link is not None and link == refs["back"][i][0]),
                                        ("end", link is not None and link == ended(refs["fwd"][i][0]))) if ok])
            if rest != rest0[i] and rest != before[i][1]:
                bad += 1
        tags.append(row)
        other.append(bad)
    names = sorted(os.listdir(f"{d}/res")) + sorted(os.listdir(f"{d}/img"))
    fr = range(j["first"], j["last"] + 1)
    ok = {f"{b}.{f}" for b in ("rt_is", "ptv_is", "added") for f in fr} | {f"cam{c}.{f:04d}_targets" for c in range(len(j["cams"])) for f in fr}
    if any(n not in ok for n in names):
        other[-1] += 100
    shutil.rmtree(d)
    answer(dict(first=j["first"], last=j["last"], ops=j["ops"], ret=ret, cur=cur, tags=tags, other=other,
                links=sum(r[1] >= 0 for s in refs["fwd"] for r in s[0][1:]), filled=sum(a[0] != b[0] for a, b in zip(refs["fwd"], refs["back"]))))


if __name__ == "__main__":
    hush()
    for case in cases():
        hist(case)
