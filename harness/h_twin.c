/* C24: one scene matched with the cameras in the given order (answers are given in the original order).
 *  scene cams p0..p3 seed particles missing(%)
 * clear: with four times the tolerance, in either direction, every target has its own particle's targets as its only candidates.
 */
#include "hcommon.h"
#include "hscene.h"
#include "correspondences.h"

static int clear_(int cams, frame *f, coord_2d **crd, volume_par *vp, control_par *cp, Calibration **cal) {
    int a, b, i, j, n; candidate *cand = malloc(MAXCAND * sizeof *cand); volume_par wide = *vp; double xa, ya, xb, yb;
    wide.eps0 *= 4;
    for (a = 0; a < cams; a++) for (b = 0; b < cams; b++) if (a != b) for (i = 0; i < f->num_targets[a]; i++) {
        target *t = &f->targets[a][crd[a][i].pnr]; int want = -1;
        for (j = 0; j < f->num_targets[b]; j++) if (f->targets[b][crd[b][j].pnr].sumg == t->sumg) want = j;
        epi_mm(crd[a][i].x, crd[a][i].y, cal[a], cal[b], cp->mm, &wide, &xa, &ya, &xb, &yb);
        n = find_candidate(crd[b], f->targets[b], f->num_targets[b], xa, ya, xb, yb, t->n, t->nx, t->ny, t->sumg, cand, &wide, cp, cal[b]);
        if (n != (want >= 0) || (n && cand[0].pnr != want)) { free(cand); return 0; }
    }
    free(cand);
    return 1;
}
static void scene(void) {
    int cams = ri(), slot[4], seed, np, miss, c, s, i, j, n, counts[4]; n_tupel *con;
    double cx[4] = {-120, 120, -110, 130}, cy[4] = {-90, -100, 110, 95};
    frame f; coord_2d *crd[4]; volume_par vp = {{-40, 40}, {-30, -30}, {30, 30}, 0, 0, 0, 0, .004, 0};
    Calibration *cal[4]; control_par *cp;
    for (c = 0; c < 4; c++) slot[c] = ri();
    seed = ri(); np = ri(); miss = ri();
    rng_seed(seed);
    cp = make_cpar(cams, 1280, 1024, .01, .01, rnd() < .5 ? 1 : 1.46, 5);
    if (rnd() < .3) { vp.Zmin_lay[1] = -20; vp.Zmax_lay[0] = 25; }
    frame_init(&f, cams, 400);
    for (c = 0; c < cams; c++) {
        Calibration *w = cal[slot[c]] = look_at_origin(cx[c], cy[c], 400 + 10 * c, 40, .01 * c);
        w->glass_par.vec_x = 0; w->glass_par.vec_y = 0; w->glass_par.vec_z = 100;
        if (rnd() < .5) { w->int_par.xh = .1; w->int_par.yh = -.2; }
        f.num_targets[c] = 0;
    }
    for (i = 0; i < np; i++) {
        vec3d X; vec_set(X, rnd() * 60 - 30, rnd() * 50 - 25, rnd() * 40 - 20);
        for (s = 0; s < cams; s++) {
            double x, y; target t = {0};
            c = slot[s];
            if (rnd() < miss / 100.) continue;
            img_coord(X, cal[c], cp->mm, &x, &y); metric_to_pixel(&x, &y, x, y, cp);
            t.x = x; t.y = y; t.n = 8; t.nx = 3; t.ny = 3; t.sumg = 300 + i; t.tnr = -7;
            f.targets[c][f.num_targets[c]++] = t;
        }
    }
    for (c = 0; c < cams; c++) {
        n = f.num_targets[c]; crd[c] = malloc((n + 1) * sizeof(coord_2d));
        for (i = 0; i < n; i++) {
            f.targets[c][i].pnr = i; crd[c][i].pnr = i;
            pixel_to_metric(&crd[c][i].x, &crd[c][i].y, f.targets[c][i].x, f.targets[c][i].y, cp);
            dist_to_flat(crd[c][i].x, crd[c][i].y, cal[c], &crd[c][i].x, &crd[c][i].y, .00001);
        }
        quicksort_coord2d_x(crd[c], n);
    }
    begin();
    P("{\"clear\":%d,", clear_(cams, &f, crd, &vp, cp, cal));
    con = correspondences(&f, crd, &vp, cp, cal, counts);
    PI_("counts", counts, 4);
    P(",\"groups\":[");      /* targets by their own numbers, -1 where a camera has none */
    for (i = 0; i < counts[3]; i++) {
        P("%s[", i ? "," : "");
        for (s = 0; s < cams; s++) { c = slot[s]; j = con[i].p[c]; P("%s%d", s ? "," : "", j < 0 ? -1 : crd[c][j].pnr); }
        P("]");
    }
    P("]}"); end();
    free(con); free_frame(&f); free_control_par(cp);
    for (c = 0; c < cams; c++) { free(crd[c]); free(cal[c]); }
}
int main(void) { char cmd[64]; while (rcmd(cmd)) if (!strcmp(cmd, "scene")) scene(); else return 3; return 0; }
