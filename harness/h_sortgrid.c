/* C16: matching known points to detections; nearest detection to a point. */
#include "hcommon.h"
#include "hscene.h"
#include "sortgrid.h"

static target *targets(int n, int full) {
    int i; target *a = malloc(n * sizeof *a + 1);
    P("\"tg\":[");
    for (i = 0; i < n; i++) {
        int x = ri(), y = ri();
        target t = {i * 3 % 7 - 1, x / 64., y / 64., 10 + i % 5, 3 + i, 4 + i, 100 + 7 * i, i % 4 - 1};
        a[i] = t;
        if (full) P("%s[%d,%d,%d,%d,%d,%d,%d]", i ? "," : "", x, y, t.n, t.nx, t.ny, t.sumg, t.tnr);
        else P("%s[%d,%d]", i ? "," : "", x, y);
    }
    P("]");
    return a;
}

static void near_case(void) {
    int n = ri(), qx, qy, e, r; target *a, *b;
    begin(); P("{\"kind\":\"near\",");
    a = targets(n, 0); qx = ri(); qy = ri(); e = ri();
    b = malloc(n * sizeof *a + 1); memcpy(b, a, n * sizeof *a);
    r = nearest_neighbour_pix(a, n, qx / 64., qy / 64., e / 64.);
    P(",\"p\":[%d,%d],\"eps\":%d,\"ret\":%d,\"same\":%d}", qx, qy, e, r, !memcmp(a, b, n * sizeof *a));
    free(a); free(b); end();
}

/* exact: camera straight above; otherwise a distorted camera looking through glass, drawn from a seed;
 * then detections are given relative to the projections of points (index dx dy), -1 x y: anywhere */
static void grid_case(void) {
    int exact = ri(), seed = ri(), imx = ri(), imy = ri(), eps = ri(), nf = ri(), i, n, same;
    vec3d *fix = malloc(nf * sizeof *fix + 1), *fix2 = malloc(nf * sizeof *fix + 1); control_par *cp, keep; mm_np mm; Calibration *cal, calk; target *a, *b, *r; double (*pr)[2] = malloc(nf * sizeof *pr + 1);
    rng_seed(seed);
    begin(); P("{\"kind\":\"grid\",\"exact\":%d,\"m\":%d,\"im\":[%d,%d],\"eps\":%d,\"fix\":[", exact, !exact, imx, imy, eps);
    for (i = 0; i < nf; i++) {
        int k, v[3]; for (k = 0; k < 3; k++) { v[k] = ri(); fix[i][k] = v[k] / 4.; }
        P("%s[%d,%d,%d]", i ? "," : "", v[0], v[1], v[2]);
    }
    P("],\"proj\":[");
    if (exact) {
        cal = straight_down(0, 0, 64, 64, 0, 0); cp = make_cpar(1, imx, imy, 1, 1, 1, 1 + seed % 5);
    } else {
        cal = look_at_origin(100 * (rnd() - .5), 100 * (rnd() - .5), 150 + 60 * rnd(), 30 + 30 * rnd(), .2 * rnd());
        cal->int_par.xh = .2 * rnd(); cal->int_par.yh = -.2 * rnd();
        cal->added_par.k1 = 1e-5 * rnd(); cal->added_par.p1 = 1e-5 * rnd(); cal->added_par.scx = 1 + .01 * rnd(); cal->added_par.she = .01 * rnd();
        cal->glass_par.vec_z = 40;
        cp = make_cpar(1, imx, imy, .1, .12, 1.46, 1 + 5 * rnd());
    }
    for (i = 0; i < nf; i++) {
        double x, y;
        img_coord(fix[i], cal, cp->mm, &x, &y); metric_to_pixel(&pr[i][0], &pr[i][1], x, y, cp);
        P("%s[%d,%d]", i ? "," : "", q(pr[i][0], 64), q(pr[i][1], 64));
    }
    P("],");
    n = ri();
    a = malloc(n * sizeof *a + 1);
    P("\"tg\":[");
    for (i = 0; i < n; i++) {
        int at = ri(), x = ri(), y = ri(); target t = {i * 3 % 7 - 1, 0, 0, 10 + i % 5, 3 + i, 4 + i, 100 + 7 * i, i % 4 - 1};
        if (at >= 0) { x += q(pr[at][0], 64); y += q(pr[at][1], 64); }
        t.x = x / 64.; t.y = y / 64.;
        a[i] = t; P("%s[%d,%d,%d,%d,%d,%d,%d]", i ? "," : "", x, y, t.n, t.nx, t.ny, t.sumg, t.tnr);
    }
    b = malloc(n * sizeof *a + 1); memcpy(b, a, n * sizeof *a); memcpy(fix2, fix, nf * sizeof *fix); calk = *cal; keep = *cp; mm = *cp->mm;
    r = sortgrid(cal, cp, nf, fix, n, eps, a);
    same = !memcmp(a, b, n * sizeof *a) && !memcmp(fix, fix2, nf * sizeof *fix) && !memcmp(&calk, cal, sizeof calk) && !memcmp(&keep, cp, sizeof keep) && !memcmp(&mm, cp->mm, sizeof mm);
    P("],\"same\":%d,\"out\":[", same);
    for (i = 0; i < nf; i++)
        if (r[i].pnr == -999) P("%s[-999]", i ? "," : "");
        else P("%s[%d,%d,%d,%d,%d,%d,%d,%d]", i ? "," : "", r[i].pnr, q(r[i].x, 64), q(r[i].y, 64), r[i].n, r[i].nx, r[i].ny, r[i].sumg, r[i].tnr);
    P("]}");
    free(a); free(b); free(r); free(pr); free(fix); free(fix2); free(cal); free_control_par(cp); end();
}

int main(void) {
    char c[64];
    while (rcmd(c)) { if (!strcmp(c, "near")) near_case(); else grid_case(); }
    return 0;
}
