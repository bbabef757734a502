/* Cameras, parameters and scenes built in memory for the harnesses. */
#ifndef HSCENE_H
#define HSCENE_H
#include "calibration.h"
#include "parameters.h"
#include "imgcoord.h"
#include "trafo.h"
#include "vec_utils.h"

/* a camera at pos looking at the point (0,0,0); glass wall normal to z (towards the cameras) */
static Calibration *look_at_origin(double x, double y, double z, double cc, double roll) {
    Calibration *c = calloc(1, sizeof *c);
    double r = sqrt(x * x + y * y + z * z);
    c->ext_par.x0 = x; c->ext_par.y0 = y; c->ext_par.z0 = z;
    c->ext_par.phi = asin(x / r); c->ext_par.omega = atan2(-y, z); c->ext_par.kappa = roll;
    rotation_matrix(&c->ext_par);
    c->int_par.cc = cc;
    c->glass_par.vec_x = 0.0001; c->glass_par.vec_y = 0.00001; c->glass_par.vec_z = 1;
    c->added_par.scx = 1;
    return c;
}

/* a camera looking straight down the z axis, principal point xh, yh */
static Calibration *straight_down(double x, double y, double z, double cc, double xh, double yh) {
    Calibration *c = calloc(1, sizeof *c);
    c->ext_par.x0 = x; c->ext_par.y0 = y; c->ext_par.z0 = z;
    rotation_matrix(&c->ext_par);
    c->int_par.cc = cc; c->int_par.xh = xh; c->int_par.yh = yh;
    c->glass_par.vec_z = 1;
    c->added_par.scx = 1;
    return c;
}

static control_par *make_cpar(int cams, int imx, int imy, double px, double py, double n2, double d) {
    control_par *p = new_control_par(cams);
    p->imx = imx; p->imy = imy; p->pix_x = px; p->pix_y = py;
    p->chfield = 0; p->hp_flag = 0; p->tiff_flag = 0; p->allCam_flag = 0;
    p->mm->nlay = 1; p->mm->n1 = 1; p->mm->n2[0] = n2; p->mm->d[0] = d; p->mm->n3 = n2 == 1 ? 1 : 1.33;
    return p;
}

/* pseudo-random numbers of our own, so that every platform and library version gives the same scenes */
static unsigned long long rng_s = 1;
static void rng_seed(int s) { rng_s = 88172645463325252ULL ^ ((unsigned long long)s * 0x9E3779B97F4A7C15ULL); }
static double rnd(void) { rng_s ^= rng_s << 13; rng_s ^= rng_s >> 7; rng_s ^= rng_s << 17; return (rng_s >> 11) * (1.0 / 9007199254740992.0); }
static int rndi(int n) { return (int)(rnd() * n); }
#endif
