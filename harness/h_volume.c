/* C25: the observed volume, from cameras of any kind. */
#include "hcommon.h"
#include "hscene.h"
#include "multimed.h"
#include "ray_tracing.h"
#include "tracking_run.h"

static void box(const char *n, double *b) { int i; P("%s[", n); for (i = 0; i < 3; i++) P("%s[%d,%d]", i ? "," : "", q(b[2 * i], 1e4), q(b[2 * i + 1], 1e4)); P("]"); }
static void find(double *b, volume_par *vp, control_par *cp, Calibration **c) { volumedimension(b + 1, b, b + 3, b + 2, b + 5, b + 4, vp, cp, c); }
int main(void) {
    char op[64]; int i, j, k, m;
    while (rcmd(op)) {      /* seed cams layers bent wide */
        int seed = ri(), nc = ri(), layers = ri(), bent = ri(), wide = ri(), same; Calibration *c[4], *pc[4], kc[4]; control_par *cp; volume_par vp, kv; track_par *tp; sequence_par *sp; mm_np km;
        double g, tx = 0, ty = 0, b[6], b0[6], b1[6], px, py, size = 0, lmax; tracking_run *tr;
        rng_seed(seed); for (i = 0; i < 20; i++) rnd();
        cp = make_cpar(nc, 200 + rndi(1800), 200 + rndi(1800), px = .004 + .008 * rnd(), py = .004 + .008 * rnd(), layers ? 1.2 + .5 * rnd() : 1, 1 + 8 * rnd());
        if (layers) cp->mm->n3 = 1 + .5 * rnd();
        g = 1 + 40 * rnd(); if (rndi(2)) { tx = .2 * g * (rnd() - .5); ty = .2 * g * (rnd() - .5); }
        for (i = 0; i < nc; i++) {
            double z = g + 150 + 400 * rnd(), a = 6.2832 * rnd(), r = z * .3 * rnd();
            c[i] = look_at_origin(r * cos(a), r * sin(a), z, 30 + 60 * rnd(), 6 * (rnd() - .5));
            if (rndi(3)) { c[i]->int_par.xh = .6 * (rnd() - .5); c[i]->int_par.yh = .6 * (rnd() - .5); }
            c[i]->glass_par.vec_x = tx; c[i]->glass_par.vec_y = ty; c[i]->glass_par.vec_z = g;
            if (bent) { ap_52 *p = &c[i]->added_par; p->k1 = 4e-4 * (rnd() - .5); p->k2 = 1e-6 * (rnd() - .5); p->p1 = 2e-4 * (rnd() - .5); p->p2 = 2e-4 * (rnd() - .5); p->scx = 1 + .04 * (rnd() - .5); p->she = .04 * (rnd() - .5); }
            kc[i] = *c[i];
        }
        memset(&vp, 0, sizeof vp); km = *cp->mm;
        for (i = 0; i < 2; i++) { vp.X_lay[i] = i ? 5 : -5; vp.Zmin_lay[i] = -20 - rndi(60); vp.Zmax_lay[i] = vp.Zmin_lay[i] + 2 + rndi(20); }
        vp.eps0 = .3; vp.cn = .4; kv = vp;
        /* what was known before: nothing much, or a large part */
        for (i = 0; i < 4; i++) b0[i] = wide ? (i % 2 ? 1 : -1) * 100 * rnd() : (i % 2 ? 1 : -1) * .5;
        if (wide == 2) for (i = 0; i < 4; i++) b0[i] = i % 2 ? -1e5 : 1e5;      /* nothing at all: the empty range */
        if (wide == 3) { double u = 200 * (rnd() - .5), w = 200 * (rnd() - .5); b0[0] = u; b0[1] = u + 50 * rnd(); b0[2] = w + 50 * rnd(); b0[3] = w; }   /* aside; empty in one direction */
        b0[4] = b0[5] = 777;
        begin();
        P("{\"seed\":%d,\"bent\":%d,\"lo\":[%d,%d],\"hi\":[%d,%d],\"x\":[%d,%d],\"y\":[%d,%d],\"pts\":[", seed, bent, q(vp.Zmin_lay[0], 1e4), q(vp.Zmin_lay[1], 1e4), q(vp.Zmax_lay[0], 1e4), q(vp.Zmax_lay[1], 1e4), q(b0[0], 1e4), q(b0[1], 1e4), q(b0[2], 1e4), q(b0[3], 1e4));
        for (i = 0; i < nc; i++) { P("%s[", i ? "," : "");
            for (j = 0; j < 8; j++) {      /* the image corners, in metric units by hand */
                double x = (j & 1 ? .5 : -.5) * cp->imx * px, y = (j & 2 ? .5 : -.5) * cp->imy * py, z, X[2]; vec3d at, dir;
                if (bent) dist_to_flat(x, y, c[i], &x, &y, 1e-9); else { x -= c[i]->int_par.xh; y -= c[i]->int_par.yh; }
                ray_tracing(x, y, c[i], *cp->mm, at, dir);
                z = vp.Zmin_lay[0];
                for (m = 0; m < 2; m++) { if (!(j & 4) && vp.Zmin_lay[m] < z) z = vp.Zmin_lay[m]; if ((j & 4) && (!m || vp.Zmax_lay[m] > z)) z = vp.Zmax_lay[m]; }
                for (m = 0; m < 2; m++) { X[m] = at[m] + (z - at[2]) / dir[2] * dir[m]; if (fabs(X[m]) > size) size = fabs(X[m]); }
                P("%s[%d,%d]", j ? "," : "", q(X[0], 1e4), q(X[1], 1e4));
            }
            P("]"); }
        memcpy(b, b0, sizeof b); find(b, &vp, cp, c);
        P("],\"size\":%d,", q(size, 1e4)); box("\"got\":", b);
        P(",\"more\":["); memcpy(b1, b, sizeof b); find(b1, &vp, cp, c); box("", b1);
        memcpy(b1, b0, sizeof b); for (i = 0; i < nc; i++) pc[i] = c[nc - 1 - i];
        find(b1, &vp, cp, pc); box(",", b1);
        for (k = 0, memcpy(b1, b0, sizeof b); k < nc; k++) { cp->num_cams = 1; find(b1, &vp, cp, c + (k + 1) % nc); }   /* one camera at a time */
        cp->num_cams = nc; box(",", b1); P("],");
        same = !memcmp(&vp, &kv, sizeof vp) && !memcmp(&km, cp->mm, sizeof km);
        for (i = 0; i < nc; i++) same = same && !memcmp(c[i], &kc[i], sizeof kc[i]);
        /* a run set up with the same parameters: it starts from the limits in them */
        b0[0] = vp.X_lay[0]; b0[1] = vp.X_lay[1]; b0[2] = b0[3] = 0; find(b0, &vp, cp, c);
        tp = calloc(1, sizeof *tp); tp->dvxmin = -9 * rnd(); tp->dvxmax = 9 * rnd(); tp->dvymin = -9 * rnd(); tp->dvymax = 9 * rnd(); tp->dvzmin = -9 * rnd(); tp->dvzmax = 9 * rnd();
        sp = new_sequence_par(nc); for (i = 0; i < nc; i++) strcpy(sp->img_base_name[i], "no");
        tr = tr_new(sp, tp, memcpy(malloc(sizeof vp), &vp, sizeof vp), cp, 4, 5, "no", "no", "no", c, 1e-4);
        b1[0] = tr->vpar->X_lay[0]; b1[1] = tr->vpar->X_lay[1]; b1[2] = tr->ymin; b1[3] = tr->ymax; b1[4] = tr->vpar->Zmin_lay[0]; b1[5] = tr->vpar->Zmax_lay[1];
        box("\"run\":", b0); box(",\"rungot\":", b1);
        lmax = sqrt(pow(tp->dvxmax - tp->dvxmin, 2) + pow(tp->dvymax - tp->dvymin, 2) + pow(tp->dvzmax - tp->dvzmin, 2));
        for (i = 0; i < nc; i++) same = same && !memcmp(c[i], &kc[i], sizeof kc[i]);
        P(",\"lmax\":%d,\"lmaxgot\":%d,\"same\":%d}", q(lmax, 1e4), q(tr->lmax, 1e4), same);
        fb_free(tr->fb); tr_free(tr); free(tr);
        for (i = 0; i < nc; i++) free(c[i]);
        end();
    }
    return 0;
}
