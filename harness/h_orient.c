/* C17: camera fitting (orient, raw_orient) before and after. */
#include "hcommon.h"
#include "hscene.h"
#include "orientation.h"

#define NP 19
static double *par(Calibration *c, int k) {
    double *p[] = {&c->ext_par.x0, &c->ext_par.y0, &c->ext_par.z0, &c->ext_par.omega, &c->ext_par.phi, &c->ext_par.kappa,
        &c->int_par.cc, &c->int_par.xh, &c->int_par.yh, &c->added_par.k1, &c->added_par.k2, &c->added_par.k3, &c->added_par.p1, &c->added_par.p2,
        &c->added_par.scx, &c->added_par.she, &c->glass_par.vec_x, &c->glass_par.vec_y, &c->glass_par.vec_z};
    return p[k];
}
/* one unit of each parameter moves the image by the order of a micrometre */
static const double UNIT[NP] = {1e-6, 1e-6, 1e-6, 1e-8, 1e-8, 1e-8, 1e-6, 1e-6, 1e-6, 1e-9, 1e-11, 1e-13, 1e-9, 1e-9, 1e-8, 1e-8, 1e-4, 1e-4, 1e-4};

static int n, used[200]; static vec3d fix[200]; static target pix[200];
static control_par *cp; static double cost0[NP];

static void dpar(const char *name, Calibration *a, Calibration *b) {
    int k; P("\"%s\":[", name); for (k = 0; k < NP; k++) P("%s%d", k ? "," : "", q(*par(a, k) - *par(b, k), 1 / UNIT[k])); P("],");
}
static int rotated(Calibration *c) {       /* largest error of the stored rotation matrix, in 1e-9 */
    Exterior e = c->ext_par; int i, j; double m = 0;
    rotation_matrix(&e);
    for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) if (fabs(e.dm[i][j] - c->ext_par.dm[i][j]) > m) m = fabs(e.dm[i][j] - c->ext_par.dm[i][j]);
    return q(m, 1e9);
}
static void place(Calibration *c, int i, double *x, double *y) {     /* metric, distorted */
    Calibration k = *c; rotation_matrix(&k.ext_par);
    img_coord(fix[i], &k, cp->mm, x, y);
}
/* what the fit minimises: squared residuals of the points in use, and how far adjustable parameters were drawn from the start */
static double cost(Calibration *c, Calibration *start, int flags) {
    double s = 0, x, y, mx, my; int i, k;
    for (i = 0; i < n; i++) if (used[i]) {
        place(c, i, &x, &y); pixel_to_metric(&mx, &my, pix[i].x, pix[i].y, cp);
        s += (x - mx) * (x - mx) + (y - my) * (y - my);
    }
    for (k = 6; k < 16; k++) if (flags >> (k - 6) & 1) s += (*par(c, k) - *par(start, k)) * (*par(c, k) - *par(start, k));
    return s;
}

/* fit raw seed water distorted n grid flags(11 bits) useflag perturb(0..) shifted noise(1/100 px) nbad bad.. nscr scr.. */
static void fit_case(int raw) {
    int seed = ri(), water = ri(), dist = ri(), flags, use, pert, shift, noise, i, k, nb, ns, bad[200] = {0}, scr[200] = {0}, ok, ok2;
    Calibration *t, s, c, c2; orient_par o; unsigned *f = &o.ccflag; double *r, *r2, sb[20], sb2[20], x, y; target pix2[200]; vec3d fix2[200], fixk[200]; target pixk[200];
    n = ri(); flags = ri(); use = ri(); pert = ri(); shift = ri(); noise = ri();
    nb = ri(); for (i = 0; i < nb; i++) { k = ri(); bad[k] = ri(); }
    ns = ri(); for (i = 0; i < ns; i++) scr[ri()] = 1;
    memset(pix, 0, sizeof pix); memset(pix2, 0, sizeof pix2);
    rng_seed(seed);
    t = look_at_origin(120 * (rnd() - .5), 120 * (rnd() - .5), 170 + 60 * rnd(), 50 + 20 * rnd(), .4 * (rnd() - .5));
    t->glass_par.vec_x = 4 * (rnd() - .5); t->glass_par.vec_y = 4 * (rnd() - .5); t->glass_par.vec_z = 40;
    cp = make_cpar(1, 1000, 900, .02, .021, water ? 1.46 : 1, 5);
    if (dist) {
        t->int_par.xh = .2 * rnd(); t->int_par.yh = -.2 * rnd(); t->added_par.k1 = 2e-4 * rnd(); t->added_par.k2 = 1e-6 * rnd(); t->added_par.k3 = 1e-9 * rnd();
        t->added_par.p1 = 2e-5 * rnd(); t->added_par.p2 = -2e-5 * rnd(); t->added_par.scx = 1 + .01 * rnd(); t->added_par.she = .01 * rnd();
    }
    for (i = 0; i < n; i++) {
        /* no three on a line, all over the volume */
        vec_set(fix[i], (i % 4) * 10 - 15 + 4 * rnd(), (i / 4 % 4) * 10 - 15 + 4 * rnd(), (i * 7 % 5) * 6 - 12 + 4 * rnd());
        place(t, i, &x, &y); metric_to_pixel(&pix[i].x, &pix[i].y, x, y, cp);
        pix[i].x += noise * .02 * (rnd() - .5); pix[i].y += noise * .02 * (rnd() - .5);
        pix[i].pnr = bad[i] ? (bad[i] == 1 ? -999 : bad[i] == 2 ? -1 : i + bad[i]) : i;
        if (bad[i]) { pix[i].x += 100 * rnd(); pix[i].y -= 100 * rnd(); }
    }
    memset(&o, 0, sizeof o);
    o.useflag = use; for (k = 0; k < 11; k++) f[k] = (flags >> k) & 1;
    s = *t;
    if (pert) {
        double g = pert;
        s.ext_par.x0 += 4 * g * (rnd() - .5); s.ext_par.y0 += 4 * g * (rnd() - .5); s.ext_par.z0 += 4 * g * (rnd() - .5);
        s.ext_par.omega += .02 * g * (rnd() - .5); s.ext_par.phi += .02 * g * (rnd() - .5); s.ext_par.kappa += .02 * g * (rnd() - .5);
        for (k = 9; k < 16; k++) if (shift && !raw && (shift == 2 || flags >> (k - 6) & 1)) *par(&s, k) += (k == 14 || k == 15 ? .004 : k == 9 || k > 11 ? 1e-5 : k == 10 ? 1e-7 : 1e-9) * (rnd() - .5);
        if (shift && (flags >> 10 & 1)) { s.glass_par.vec_x += rnd() - .5; s.glass_par.vec_y += rnd() - .5; }
        rotation_matrix(&s.ext_par);
    }
    s.ext_par.dm[0][0] += raw ? 0 : 1e-3;      /* a stored rotation matrix is never trusted */
    c = s; c2 = s;
    memcpy(fixk, fix, sizeof fix); memcpy(pixk, pix, sizeof pix);
    memcpy(fix2, fix, sizeof fix); memcpy(pix2, pix, sizeof pix);
    for (i = 0; i < n; i++) if (scr[i]) { pix2[i].x += 5 + 40 * rnd(); pix2[i].y += 5 + 40 * rnd(); fix2[i][0] += 3; }
    if (raw) { ok = raw_orient(&c, cp, n, fix, pix); r = r2 = NULL; ok2 = raw_orient(&c2, cp, n, fix2, pix2); }
    else {
        memset(sb, 0x5a, sizeof sb); r = orient(&c, cp, n, fix, pix, &o, sb); ok = r != NULL;
        r2 = orient(&c2, cp, n, fix2, pix2, &o, sb2); ok2 = r2 != NULL;
    }
    begin();
    P("{\"kind\":\"%s\",\"water\":%d,\"n\":%d,\"flags\":[", raw ? "raw" : "fit", water, n); for (k = 0; k < 11; k++) P("%s%d", k ? "," : "", (flags >> k) & 1);
    P("],\"use\":%d,\"pert\":%d,\"shift\":%d,\"dist\":%d,\"noise\":%d,\"pnr\":[", use, pert, shift, dist, noise); for (i = 0; i < n; i++) P("%s%d", i ? "," : "", pix[i].pnr);
    P("],\"scr\":["); for (i = k = 0; i < n; i++) if (scr[i]) P("%s%d", k++ ? "," : "", i);
    P("],\"ok\":%d,\"untouched\":%d,\"inputs\":%d,", ok, !memcmp(&c, &s, sizeof c), !memcmp(fix, fixk, sizeof fix) && !memcmp(pix, pixk, sizeof pix));
    P("\"same\":%d,\"rot\":%d,", ok == ok2 && !memcmp(&c, &c2, sizeof c), rotated(&c));
    dpar("moved", &c, &s); dpar("off", &c, t);
    P("\"neutral\":%d,", c.added_par.k1 == 0 && c.added_par.k2 == 0 && c.added_par.k3 == 0 && c.added_par.p1 == 0 && c.added_par.p2 == 0 && c.added_par.scx == 1 && c.added_par.she == 0);
    /* where the fitted camera sees the points, and what was measured, in 1/1000 pixel; residuals in nm */
    P("\"rep\":[");
    for (i = 0; i < n; i++) {
        double px, py, mx, my;
        place(&c, i, &x, &y); metric_to_pixel(&px, &py, x, y, cp); pixel_to_metric(&mx, &my, pix[i].x, pix[i].y, cp);
        P("%s[%d,%d,%d,%d]", i ? "," : "", q(px - pix[i].x, 1000), q(py - pix[i].y, 1000), q(x - mx, 1e6), q(y - my, 1e6));
    }
    P("],\"resi\":["); if (r) for (i = 0; i < 2 * n; i++) P("%s%d", i ? "," : "", q(r[i], 1e6));
    P("],\"sigma\":%d,", r ? q(sb[NPAR], 1e6) : 0);
    /* costs at the result and around it (1e-7 mm^2), for an exact fit of the exterior */
    P("\"near\":[");
    if (r && noise) {
        for (i = 0; i < n; i++) used[i] = pix[i].pnr == i && !(use == 1 && i % 2 == 0) && !(use == 2 && i % 2) && !(use == 3 && i % 3 == 0);
        P("%d", q(cost(&c, &s, flags), 1e7));
        for (k = 0; k < 16; k++) if (k < 6 || flags >> (k - 6) & 1) {
            int d;
            for (d = -1; d <= 1; d += 2) { Calibration v = c; *par(&v, k) += d * 1000 * UNIT[k] * (k < 3 ? 100 : k < 6 ? 10 : 10); P(",%d", q(cost(&v, &s, flags), 1e7)); }
        }
    }
    P("]}");
    free(r); free(r2); free(t); free_control_par(cp); end();
}

/* numeric derivatives of the projection: against central differences, in units of 1e-4 mm per 1e-2 (mm or rad) */
static void deriv_case(void) {
    int seed = ri(), k, j; Calibration *t, s; double dx[6], dy[6], dp, da; vec3d pos;
    rng_seed(seed);
    t = look_at_origin(120 * (rnd() - .5), 120 * (rnd() - .5), 170 + 60 * rnd(), 50 + 20 * rnd(), .4 * (rnd() - .5));
    t->glass_par.vec_z = 40; t->added_par.k1 = 2e-4 * rnd(); t->int_par.xh = rnd();
    cp = make_cpar(1, 1000, 900, .02, .021, seed % 2 ? 1.46 : 1, 5);
    vec_set(pos, 30 * (rnd() - .5), 30 * (rnd() - .5), 30 * (rnd() - .5));
    dp = seed % 3 ? 1e-4 : 1e-5; da = seed % 3 ? 1e-4 : 1e-7;
    s = *t;
    num_deriv_exterior(t, cp, dp, da, pos, dx, dy);
    begin(); P("{\"kind\":\"deriv\","); dpar("moved", t, &s); P("\"rot\":%d,\"d\":[", rotated(t));
    for (k = 0; k < 6; k++) {
        Calibration a = s, b = s; double h = k < 3 ? 1e-3 : 1e-5, xa, ya, xb, yb;
        *par(&a, k) += h; *par(&b, k) -= h; rotation_matrix(&a.ext_par); rotation_matrix(&b.ext_par);
        img_coord(pos, &a, cp->mm, &xa, &ya); img_coord(pos, &b, cp->mm, &xb, &yb);
        P("%s[%d,%d,%d,%d]", k ? "," : "", q(dx[k], 1e4), q(dy[k], 1e4), q((xa - xb) / (2 * h), 1e4), q((ya - yb) / (2 * h), 1e4));
    }
    P("]}"); free(t); free_control_par(cp); end();
}

int main(void) {
    char c[64];
    while (rcmd(c)) if (!strcmp(c, "deriv")) deriv_case(); else fit_case(!strcmp(c, "raw"));
    return 0;
}
