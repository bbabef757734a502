"""Cameras looking at the origin, for the Python drivers (same construction as hscene.h)."""
import math, random
import numpy as np
from optv.calibration import Calibration
from optv.parameters import ControlParams, VolumeParams


def look_at_origin(x, y, z, cc=40., roll=0., xh=0., yh=0.):
    r = math.sqrt(x * x + y * y + z * z)
    return Calibration(np.array([x, y, z], float), np.array([math.atan2(-y, z), math.asin(x / r), roll]),
                       np.array([xh, yh, cc]), np.zeros(3), np.zeros(2), np.array([1., 0.]), np.array([0., 0., 100.]))


PLACES = [(-120, -90, 400), (120, -100, 410), (-110, 110, 420), (130, 95, 430)]


def cameras(n):
    return [look_at_origin(*PLACES[i], roll=.01 * i) for i in range(n)]


def control(cams, n=1.):
    c = ControlParams(cams, [], (1280, 1024), (.01, .01))
    mm = c.get_multimedia_params()
    mm.set_n1(1.); mm.set_layers([1. if n == 1 else 1.46], [5.]); mm.set_n3(n)
    return c


def volume():
    return VolumeParams(x_span=(-40, 40), z_spans=[(-30, 30), (-30, 30)], pixels_x=.3, pixels_y=.3, pixels_tot=.3,
                        ref_gray=.01, epipolar_band=.02, min_correlation=0)
