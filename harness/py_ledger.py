"""C27: what objects and calls of the bindings take and give back."""
import ctypes, gc, os, random
import numpy as np
from pycommon import *
from pyscene import *
from optv.parameters import *
from optv.calibration import Calibration
from optv.tracking_framebuf import TargetArray, Target, Frame, read_targets
from optv.correspondences import MatchedCoords, correspondences
from optv.segmentation import target_recognition
from optv.image_processing import preprocess_image
from optv.orientation import *
from optv.imgcoord import image_coordinates, flat_image_coordinates
from optv.transforms import *
from optv.epipolar import epipolar_curve
from optv.tracker import Tracker

L = ctypes.CDLL(None)
L.ledger_events.restype = ctypes.POINTER(ctypes.c_int)
FILES = {"seq": "imga.\nimgb.\n1001\n1005\n", "ctl": "2\nimga\ncala\nimgb\ncalb\n1\n0\n1\n640\n480\n0.01\n0.01\n0\n1\n1.33\n1.46\n5\n",
         "trk": "-2 2 -2 2 -2 2 100 1.5 1\n", "vol": "-30\n-30\n30\n30\n-20\n20\n0.3\n0.3\n0.01\n0.01\n33\n0.02\n",
         "tar": "10\n11\n12\n13\n5\n1\n100\n2\n50\n2\n51\n30\n3\n", "ori": "1.5 2.5 300.25\n0.1 0.05 -0.02\n\n1 0 0\n0 1 0\n0 0 1\n\n0.1 -0.2\n60\n\n0.0001 0.0001 20\n",
         "add": "0.001 0 0 0.0002 0 1 0\n", "filt": "0.1 0.1 0.1\n0.1 0.2 0.1\n0.1 0.1 0.1\n",
         "img.0001_targets": "3\n" + "".join("%4d %9.4f %9.4f %5d %5d %5d %5d %5d\n" % (i, 3 * i, i, 4, 2, 2, 99, -1) for i in range(3))}
R = random.Random()


def put(name, spoil):
    t = FILES[name]
    how = R.randint(0, 2) if spoil else 3
    if os.path.exists(name):
        os.unlink(name)
    if how:
        if how == 1:
            t = t[:R.randrange(len(t))]
        if how == 2:
            k = R.randrange(len(t))
            t = t[:k] + "x" + t[k + 1:] if t[k] > " " else t
        open(name, "w").write(t)
    return name


def frames(spoil):
    for f in range(1001, 1006):
        n = 3
        pos = [(6 * i - 6 + f - 1003, 4 * i, -5. - i) for i in range(n)]
        open("rt.%d" % f, "w").write("%d\n" % n + "".join("%4d %9.3f %9.3f %9.3f %4d %4d %4d %4d\n" % ((i + 1,) + p + (i, i, -1, -1)) for i, p in enumerate(pos)))
        open("li.%d" % f, "w").write("%d\n" % n + "".join("%4d %4d %10.3f %10.3f %10.3f\n" % ((-1, -2) + p) for p in pos))
        for c, cam in enumerate(CAMS):
            px = convert_arr_metric_to_pixel(image_coordinates(np.array(pos), cam, CTL.get_multimedia_params()), CTL)
            open("im%d.%04d_targets" % (c, f), "w").write("%d\n" % n + "".join("%4d %9.4f %9.4f %5d %5d %5d %5d %5d\n" % (i, x, y, 9, 3, 3, 200, i) for i, (x, y) in enumerate(px)))
    if spoil:
        for f in range(1001, 1006):
            x = R.choice(("rt.%d", "li.%d", "im0.%d_targets", "im1.%d_targets")) % f
            if R.random() < .5:
                os.unlink(x)
            else:
                open(x, "w").write("3\n 1 2 x")


CAMS, CTL, VOL = cameras(2), control(2), volume()
SEEN = [TargetArray(12) for _ in CAMS]
PTS = np.array([(12. * (i % 3) - 12, 10. * (i // 3 % 2) - 5, -8. * (i // 6) - 3) for i in range(12)])
PIX = [convert_arr_metric_to_pixel(image_coordinates(PTS, cam, CTL.get_multimedia_params()), CTL) for cam in CAMS]
for c in range(2):
    for i, (x, y) in enumerate(PIX[c]):
        t = SEEN[c][i]
        t.set_pos((x, y)); t.set_pnr(i); t.set_tnr(-1); t.set_pixel_counts(9, 3, 3); t.set_sum_grey_value(200)
    SEEN[c].sort_y()
SORTED = [match_detection_to_ref(CAMS[0], PTS, SEEN[0], CTL)]


# ---- per kind: make(spoil) -> object, use(object, spoil), fill(object, spoil)
def par_make(v, s):
    return [lambda: SequenceParams(num_cams=R.randint(1, 4)) if not s else SequenceParams(frame_range=("a", 2), **R.choice(({}, {"num_cams": 2}, {"num_cams": "a"}))),
            lambda: SequenceParams(frame_range=(1, 5), image_base=["a%d" % i if not s or i < 2 else 7 for i in range(3)]),
            lambda: ControlParams(R.randint(1, 4)) if not s else ControlParams(*R.choice(((), ("a",), (2, [], 5), (2, [], None, (1, "a"))))),
            lambda: ControlParams(2, ["hp"], (64, 48), (.01, .02), 1., [1.3] * (9 if s else 2), [5.] * (9 if s else 2), 1.33),
            lambda: MultimediaParams() if not s else MultimediaParams(n1="x"),
            lambda: MultimediaParams(n1=1., n2=[1.1, 1.2], d=[1., 2.] if not s else [1.], n3=1.3),
            lambda: TrackingParams() if not s else TrackingParams(velocity_lims=[[1, 2]]),
            lambda: VolumeParams() if not s else VolumeParams(x_span=(1,)),
            lambda: TargetParams() if not s else TargetParams(gvthresh=["a"]),
            lambda: TargetParams(gvthresh=[1] * (9 if s else 4))][v]()


def par_use(x, v, s):
    if s:
        [lambda: x.set_img_base_name(9, "a"), lambda: x.set_img_base_name(0, "a" * 900), lambda: x.get_img_base_name(9), lambda: x.set_pixel_size((1,)),
         lambda: x.set_layers([1.] * 9, [1.] * 9), lambda: x.set_n1("a"), lambda: x.set_dacc("a"), lambda: x.set_X_lay((1,)), lambda: x.set_grey_thresholds([1] * 9)][R.randrange(9)]()
    for g in dir(x):
        if g.startswith("get_") and not g.endswith("base_name"):
            w = getattr(x, g)()
    if hasattr(x, "get_img_base_name"):
        x.set_img_base_name(0, "other"); w = x.get_img_base_name(0)
    w = None
    for op in ("__eq__", "__ne__"):
        getattr(x, op)(x)


def par_fill(x, v, s):
    n = {SequenceParams: "seq", ControlParams: "ctl", TrackingParams: "trk", VolumeParams: "vol", TargetParams: "tar"}.get(type(x))
    if n is None:
        x.set_layers([1.1, 1.2], [1., 2.])
        return
    fn = put(n, s).encode()
    if s and R.random() < .2:
        fn = None
    if n == "seq":
        x.read_sequence_par(fn, 2)
    else:
        getattr(x, {"ctl": "read_control_par", "trk": "read_track_par", "vol": "read_volume_par", "tar": "read"}[n])(fn)


def cal_make(v, s):
    return Calibration() if not s else Calibration(pos=np.zeros(2)) if v else Calibration(rad_dist=np.zeros(7))


def cal_use(x, v, s):
    k = R.randrange(4)
    if k == 0:
        x.write(b"nodir/a" if s else b"o.ori", b"o.add")
    elif k == 1:
        x.set_pos(np.zeros(4) if s else np.ones(3))
    elif k == 2:
        image_coordinates(np.zeros((2, 2 if s else 3)), CAMS[0], CTL.get_multimedia_params())
    else:
        [getattr(x, g)() for g in dir(x) if g.startswith("get_")]


def cal_fill(x, v, s):
    a, b = put("ori", s and R.random() < .7).encode(), put("add", s).encode()
    x.from_file(None if s and R.random() < .2 else a, *[[], [b], [None, b], [b"none", b]][R.randrange(4)])


def tgt_make(v, s):
    if v == 0:
        return Target() if not s else Target(pnr=1, tnr=2, x="a", y=1, n=1, nx=1, ny=1, sumg=1)
    if v == 1:
        return Target(pnr=1, tnr=2, x=1, y=1, n=1, nx=1, ny=1, sumg=1) if not s else Target(pnr=1)
    if v == 2:
        return TargetArray(R.randint(0, 5)) if not s else TargetArray("a")
    if v == 3:
        put("img.0001_targets", s)
        return read_targets("img." if not s or R.random() < .5 else b"img.", 1)
    if v == 4:
        return MatchedCoords(SEEN[0], CTL, CAMS[0]) if not s else MatchedCoords(SEEN[0], CTL, CAMS[0], tol="a")
    if v == 5:
        im = np.zeros((40, 50), np.uint8)
        im[5:8, 5:9] = 200; im[20:23, 30:34] = 99
        c = ControlParams(1); c.set_image_size((50, 40) if not s or R.random() < .5 else (40, 50))
        return target_recognition(im, TargetParams(gvthresh=[50] * 4, pixel_count_bounds=(1, 99), xsize_bounds=(1, 99), ysize_bounds=(1, 99), discont=100, min_sum_grey=1), 0, c, (1,) if s else None)
    return match_detection_to_ref(CAMS[0], PTS[:, :2] if s else PTS, SEEN[0], CTL)


def tgt_use(x, v, s):
    if isinstance(x, MatchedCoords):
        x.as_arrays(); x.get_by_pnrs(np.array([99 if s else 1]))
    elif isinstance(x, TargetArray):
        x.sort_y(); t = x[99 if s else 0] if len(x) else None
        x.write(b"nodir/t" if s else b"t.", 3)
    elif v == 1:
        x.set_pos((1, "a") if s else (1, 2)); x.count_pixels(); x.pos()


def frm_make(v, s):
    if v == 0:
        return Frame(R.randint(1, 4)) if not s else Frame()
    frames(s)
    return Frame(2, b"rt", b"li", target_file_base=[b"im0.", b"im1."] if not s or R.random() < .6 else [b"im0."], frame_num=1002)


def frm_use(x, v, s):
    x.positions(); x.target_positions_for_camera(9 if s else 0)


def frm_fill(x, v, s):
    if v == 0:
        return
    frames(s)
    how = R.randrange(4)
    x.read(b"rt", b"li", [b"im0.", b"im1."] if not s or how else [b"im0."] if R.random() < .5 else [b"im0.", 5], 1003, 5 if s and how == 1 else None)


def trk_make(v, s):
    sp = SequenceParams(frame_range=(1001, 1005), image_base=["im0.", "im1."])
    tp = TrackingParams(accel_lim=2., angle_lim=100., add_particle=1, velocity_lims=[[-3, 3]] * 3)
    nam = {"corres": b"rt", "linkage": b"li", "prio": b"added"}
    if s:
        del nam[R.choice(list(nam))]
    return Tracker(CTL, volume(), tp, sp, CAMS, nam)


def trk_use(x, v, s):
    frames(s and 0)
    k = R.randrange(3)
    if k == 0:
        x.full_forward()
    elif k == 1:
        x.full_backward()
    else:
        x.restart()
        for _ in range(R.randint(0, 6)):
            if not x.step_forward():
                break
        x.finalize()


def fun_use(x, v, s):
    k = R.randrange(12)
    mm = CTL.get_multimedia_params()
    flat = [MatchedCoords(SEEN[c], CTL, CAMS[c]) for c in range(2)]
    for c in range(2):
        for t in SEEN[c]:
            t.set_tnr(-1)
    tg = np.ascontiguousarray(np.array([convert_arr_pixel_to_metric(p, CTL) for p in PIX]).transpose(1, 0, 2))
    if k == 0:
        correspondences(SEEN, flat if not s else flat[:1], CAMS, VOL, CTL)
    elif k == 1:
        correspondences(SEEN[:1], flat[:1], CAMS[:1], VOL, CTL)
    elif k == 2:
        point_positions(tg if not s else tg[:, :1], CTL, CAMS, VOL)
    elif k == 3:
        single_cam_point_positions(tg[:, :1], CTL, CAMS[:1], VOL) if not s else single_cam_point_positions(tg[:, :1, :1].copy(), CTL, CAMS[:1], VOL)
    elif k == 4:
        multi_cam_point_positions(tg if not s else tg[:, :, :1].copy(), CTL, CAMS)
    elif k == 5:
        external_calibration(CAMS[0], PTS[:4] if not s else PTS[:4, :2], PIX[0][:4] if R.random() < .6 else PIX[0][:4, :1] if s else PIX[0], CTL)
    elif k == 6:
        full_calibration(cameras(1)[0], PTS if not s else PTS[:2], SORTED[0], CTL, ["cc", "xh"] if R.random() < .5 else [])
    elif k == 7:
        dumbbell_target_func(tg[:2] if not s else tg[:2, :1], CTL, CAMS, 5., 1.)
    elif k == 8:
        put("filt", s)
        c = ControlParams(1); c.set_image_size((30, 20))
        preprocess_image(np.zeros((20, 30), np.uint8), R.randrange(3), c, lowpass_dim=1, filter_file="filt" if R.random() < .8 else None)
    elif k == 9:
        epipolar_curve(PIX[0][0], CAMS[0], CAMS[1], 5 if not s else "a", CTL, VOL)
    elif k == 10:
        distorted_to_flat(tg[:, 0].copy() if not s else tg[:, 0, :1].copy(), CAMS[0]); correct_arr_brown_affine(tg[:, 0].copy(), CAMS[0])
    else:
        flat_image_coordinates(PTS if not s else PTS[:, :2].copy(), CAMS[0], mm)


class Thing:
    pass


KINDS = [(par_make, par_use, par_fill, 10), (cal_make, cal_use, cal_fill, 2), (tgt_make, tgt_use, None, 7), (frm_make, frm_use, frm_fill, 2), (trk_make, trk_use, None, 1),
         (lambda v, s: Thing(), fun_use, None, 1)]
gc.freeze()
for case in cases():
    make, use, fill, n = KINDS[case["kind"]]
    out = []
    for rep in range(2):
        R.seed(case["seed"])
        obj, var, out = {}, {}, []
        L.ledger_reset()

        def step(op, o, s):
            ok = 1
            L.ledger_on(1)
            try:
                if op == "make":
                    var[o] = R.randrange(n)
                    obj[o] = make(var[o], s)
                elif op == "drop":
                    del obj[o]
                else:
                    (fill if op == "refill" else use)(obj[o], var[o], s)
            except Exception:
                ok = 0
            gc.collect(1)
            L.ledger_on(0)
            k = ctypes.c_int()
            e = L.ledger_events(ctypes.byref(k))
            ev = [[e[i], e[i + 1]] for i in range(0, k.value, 2)]
            out.append({"op": op, "what": "%d.%d" % (case["kind"], var[o]), "o": o, "ok": ok, "ev": ev})

        for op, o, ok in case["hist"]:
            if (o in obj) == (op == "make"):
                continue
            step("use" if op == "refill" and not fill else op, o, not ok)
        for o in list(obj):
            step("drop", o, 0)
    answer({"kind": case["kind"], "seed": case["seed"], "objs": 2, "steps": out})
