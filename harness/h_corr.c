/* C09: multi-camera correspondences.  With -DINJECT the library's match_pairs is replaced (it is weakened
 * in a copy of the library), so that correspondences() works on any relation we like. */
#include "hcommon.h"
#include "hscene.h"
#include "correspondences.h"

static void print_result(n_tupel *con, int *counts, int cams, frame *f, coord_2d **crd) {
    int i, c;
    P("\"table\":[");
    for (i = 0; i < counts[3]; i++) {
        P("%s[", i ? "," : "");
        for (c = 0; c < cams; c++) P("%s%d", c ? "," : "", con[i].p[c]);
        P("]");
    }
    P("],\"corr\":[");
    for (i = 0; i < counts[3]; i++) P("%s%d", i ? "," : "", q(con[i].corr, 1000));
    P("],"); PI_("counts", counts, 4);
    P(",\"tnr\":[");
    for (c = 0; c < cams; c++) { P("%s[", c ? "," : ""); for (i = 0; i < f->num_targets[c]; i++) P("%s%d", i ? "," : "", f->targets[c][i].tnr); P("]"); }
    P("],\"pnr\":[");
    for (c = 0; c < cams; c++) { P("%s[", c ? "," : ""); for (i = 0; i < f->num_targets[c]; i++) P("%s%d", i ? "," : "", crd[c][i].pnr); P("]"); }
    P("]");
}

#ifdef INJECT
typedef struct { int p, corr, dist; } edge;
static edge *E_[4][4][300]; static int EN_[4][4][300];
static frame *F_; static coord_2d **C_; static volume_par *V_; static control_par *CP_; static Calibration **CAL_;
static int args_ok;
void match_pairs(correspond *list[4][4], coord_2d **corrected, frame *frm, volume_par *vpar, control_par *cpar, Calibration **calib) {
    int a, b, i, j;
    args_ok = corrected == C_ && frm == F_ && vpar == V_ && cpar == CP_ && calib == CAL_;
    for (a = 0; a < cpar->num_cams - 1; a++) for (b = a + 1; b < cpar->num_cams; b++)
        for (i = 0; i < frm->num_targets[a]; i++) {
            if (corrected[a][i].x == PT_UNUSED) continue;
            list[a][b][i].p1 = i; list[a][b][i].n = EN_[a][b][i];
            for (j = 0; j < EN_[a][b][i]; j++) {
                list[a][b][i].p2[j] = E_[a][b][i][j].p; list[a][b][i].corr[j] = E_[a][b][i][j].corr; list[a][b][i].dist[j] = E_[a][b][i][j].dist;
            }
        }
}

static void table_case(void) {
    /* cams all accept(quarters) n[c].. pnrseed, then for a<b, for each target: m and m x (p corr dist) */
    int cams = ri(), all = ri(), acc = ri(), n[4], a, b, c, i, j, counts[4] = {9, 9, 9, 9}; n_tupel *con;
    frame f; coord_2d *crd[4]; volume_par vp; Calibration *cal[4] = {0}; control_par *cp = make_cpar(cams, 100, 100, 1, 1, 1, 1);
    for (c = 0; c < cams; c++) n[c] = ri();
    rng_seed(ri());
    cp->allCam_flag = all; memset(&vp, 0, sizeof vp); vp.corrmin = acc / 4.;
    frame_init(&f, cams, 300);
    for (c = 0; c < cams; c++) {
        crd[c] = malloc((n[c] + 1) * sizeof(coord_2d)); f.num_targets[c] = n[c];
        for (i = 0; i < n[c]; i++) { target t = {i, i, i, 1, 1, 1, 1, -7}; f.targets[c][i] = t; crd[c][i].x = i; crd[c][i].y = 0; crd[c][i].pnr = i; }
        for (i = n[c] - 1; i > 0; i--) { j = rndi(i + 1); b = crd[c][i].pnr; crd[c][i].pnr = crd[c][j].pnr; crd[c][j].pnr = b; }
    }
    begin(); P("{\"kind\":\"table\",\"cams\":%d,\"all\":%d,\"accept\":%d,", cams, all, acc); PI_("n", n, cams); P(",\"w\":[");
    for (a = 0; a < cams; a++) { P("%s[", a ? "," : ""); for (b = 0; b < cams; b++) { P("%s[", b ? "," : "");
        if (a < b) for (i = 0; i < n[a]; i++) {
            int m = ri(); EN_[a][b][i] = m; E_[a][b][i] = malloc((m + 1) * sizeof(edge)); P("%s[", i ? "," : "");
            for (j = 0; j < m; j++) { edge e; e.p = ri(); e.corr = ri(); e.dist = ri(); E_[a][b][i][j] = e; P("%s[%d,%d,%d]", j ? "," : "", e.p, e.corr, e.dist); }
            P("]");
        }
        P("]"); } P("]"); }
    P("],");
    F_ = &f; C_ = crd; V_ = &vp; CP_ = cp; CAL_ = cal; args_ok = 0;
    con = correspondences(&f, crd, &vp, cp, cal, counts);
    print_result(con, counts, cams, &f, crd); P(",\"args\":%d}", args_ok);
    free(con); free_frame(&f); free_control_par(cp);
    for (c = 0; c < cams; c++) free(crd[c]);
    for (a = 0; a < cams; a++) for (b = a + 1; b < cams; b++) for (i = 0; i < n[a]; i++) free(E_[a][b][i]);
    end();
}

/* every target of every camera may be any other's: far more candidate groups than targets */
static void crowd_case(void) {
    int cams = ri(), n = ri(), a, b, c, i, j, counts[4] = {9, 9, 9, 9}; n_tupel *con;
    frame f; coord_2d *crd[4]; volume_par vp; Calibration *cal[4] = {0}; control_par *cp = make_cpar(cams, 100, 100, 1, 1, 1, 1);
    memset(&vp, 0, sizeof vp);
    frame_init(&f, cams, 300);
    for (c = 0; c < cams; c++) {
        crd[c] = malloc((n + 1) * sizeof(coord_2d)); f.num_targets[c] = n;
        for (i = 0; i < n; i++) { target t = {i, i, i, 1, 1, 1, 1, -7}; f.targets[c][i] = t; crd[c][i].x = i; crd[c][i].y = 0; crd[c][i].pnr = i; }
    }
    for (a = 0; a < cams; a++) for (b = a + 1; b < cams; b++) for (i = 0; i < n; i++) {
        EN_[a][b][i] = n; E_[a][b][i] = malloc(n * sizeof(edge));
        for (j = 0; j < n; j++) { edge e = {j, 8, 1}; E_[a][b][i][j] = e; }
    }
    F_ = &f; C_ = crd; V_ = &vp; CP_ = cp; CAL_ = cal; args_ok = 0;
    begin(); P("{\"kind\":\"crowd\",\"cams\":%d,\"n\":%d,", cams, n);
    con = correspondences(&f, crd, &vp, cp, cal, counts);
    print_result(con, counts, cams, &f, crd); P(",\"args\":%d}", args_ok);
    free(con); free_frame(&f); free_control_par(cp);
    for (c = 0; c < cams; c++) free(crd[c]);
    for (a = 0; a < cams; a++) for (b = a + 1; b < cams; b++) for (i = 0; i < n; i++) free(E_[a][b][i]);
    end();
}
#else
static void scene_case(void) {
    /* cams seed particles noise unused extra all */
    int cams = ri(), seed = ri(), np = ri(), noise = ri(), unused = ri(), extra = ri(), all = ri(), a, b, c, i, j, n, counts[4], cnt;
    double cx[4] = {-120, 120, -110, 130}, cy[4] = {-90, -100, 110, 95};
    frame f; coord_2d *crd[4]; volume_par vp = {{-40, 40}, {-30, -30}, {30, 30}, .3, .3, .3, .01, .05, 0};
    Calibration *cal[4]; control_par *cp; correspond *list[4][4]; candidate *cand = malloc(MAXCAND * sizeof *cand); n_tupel *con;
    rng_seed(seed);
    cp = make_cpar(cams, 1280, 1024, .01, .01, rnd() < .5 ? 1 : 1.46, 5);
    cp->allCam_flag = all; vp.corrmin = 0; vp.eps0 = noise ? .05 : .01;
    if (rnd() < .3) { vp.Zmin_lay[1] = -20; vp.Zmax_lay[0] = 25; }
    frame_init(&f, cams, 400);
    for (c = 0; c < cams; c++) {
        cal[c] = look_at_origin(cx[c], cy[c], 400 + 10 * c, 40, .01 * c);
        cal[c]->glass_par.vec_x = 0; cal[c]->glass_par.vec_y = 0; cal[c]->glass_par.vec_z = 100;
        if (rnd() < .5) { cal[c]->int_par.xh = .1; cal[c]->int_par.yh = -.2; }
        f.num_targets[c] = 0;
    }
    for (i = 0; i < np; i++) {
        vec3d X; vec_set(X, rnd() * 60 - 30, rnd() * 50 - 25, rnd() * 40 - 20);
        for (c = 0; c < cams; c++) {
            double x, y; target t = {0};
            if (rnd() < .15) continue;
            img_coord(X, cal[c], cp->mm, &x, &y); metric_to_pixel(&x, &y, x, y, cp);
            t.x = x + noise * (rnd() - .5); t.y = y + noise * (rnd() - .5);
            t.n = 8 + rndi(5); t.nx = 3 + rndi(2); t.ny = 3 + rndi(2); t.sumg = 300 + rndi(300); t.tnr = -7;
            f.targets[c][f.num_targets[c]++] = t;
        }
    }
    for (c = 0; c < cams; c++) for (i = 0; i < extra; i++) {
        target t = {0, rnd() * 1280, rnd() * 1024, 10, 3, 3, 400, -7}; f.targets[c][f.num_targets[c]++] = t;
    }
    for (c = 0; c < cams; c++) {
        n = f.num_targets[c];
        crd[c] = malloc((n + 1) * sizeof(coord_2d));
        for (i = 0; i < n; i++) {
            f.targets[c][i].pnr = i; crd[c][i].pnr = i;
            pixel_to_metric(&crd[c][i].x, &crd[c][i].y, f.targets[c][i].x, f.targets[c][i].y, cp);
            dist_to_flat(crd[c][i].x, crd[c][i].y, cal[c], &crd[c][i].x, &crd[c][i].y, .00001);
            if (unused && rnd() < .1) crd[c][i].x = PT_UNUSED;
        }
        quicksort_coord2d_x(crd[c], n);
    }
    for (a = 0; a < 4; a++) for (b = 0; b < 4; b++) list[a][b] = NULL;
    safely_allocate_adjacency_lists(list, cams, f.num_targets);
    match_pairs(list, crd, &f, &vp, cp, cal);
    begin();
    /* the relation against the search itself */
    P("{\"kind\":\"pairs\",\"got\":[");
    for (a = 0; a < cams - 1; a++) for (b = a + 1; b < cams; b++) {
        P("%s[", a + b > 1 ? "," : "");
        for (i = 0; i < f.num_targets[a]; i++) { P("%s[", i ? "," : "");
            for (j = 0; j < list[a][b][i].n; j++) P("%s[%d,%d,%d]", j ? "," : "", list[a][b][i].p2[j], q(list[a][b][i].corr[j], 1000), q(list[a][b][i].dist[j], 1e6));
            P("]"); }
        P("]"); }
    P("],\"want\":[");
    for (a = 0; a < cams - 1; a++) for (b = a + 1; b < cams; b++) {
        P("%s[", a + b > 1 ? "," : "");
        for (i = 0; i < f.num_targets[a]; i++) { double xa, ya, xb, yb; target *t; P("%s[", i ? "," : "");
            if (crd[a][i].x != PT_UNUSED) {
                t = &f.targets[a][crd[a][i].pnr];
                epi_mm(crd[a][i].x, crd[a][i].y, cal[a], cal[b], cp->mm, &vp, &xa, &ya, &xb, &yb);
                cnt = find_candidate(crd[b], f.targets[b], f.num_targets[b], xa, ya, xb, yb, t->n, t->nx, t->ny, t->sumg, cand, &vp, cp, cal[b]);
                for (j = 0; j < cnt; j++) P("%s[%d,%d,%d]", j ? "," : "", cand[j].pnr, q(cand[j].corr, 1000), q(cand[j].tol, 1e6));
            }
            P("]"); }
        P("]"); }
    P("]}"); end();
    /* the table; all ratings above the threshold, so the relation is printed without data */
    con = correspondences(&f, crd, &vp, cp, cal, counts);
    begin();
    P("{\"kind\":\"scene\",\"cams\":%d,\"all\":%d,\"accept\":0,", cams, all); PI_("n", f.num_targets, cams); P(",\"w\":[");
    for (a = 0; a < cams; a++) { P("%s[", a ? "," : ""); for (b = 0; b < cams; b++) { P("%s[", b ? "," : "");
        if (a < b) for (i = 0; i < f.num_targets[a]; i++) { P("%s[", i ? "," : "");
            for (j = 0; j < list[a][b][i].n; j++) P("%s[%d,1,1]", j ? "," : "", list[a][b][i].p2[j]);
            P("]"); }
        P("]"); } P("]"); }
    P("],");
    print_result(con, counts, cams, &f, crd); P("}");
    deallocate_adjacency_lists(list, cams);
    free(con); free_frame(&f); free(cand); free_control_par(cp);
    for (c = 0; c < cams; c++) { free(crd[c]); free(cal[c]); }
    end();
}
#endif

int main(void) {
    char c[64];
    while (rcmd(c)) {
#ifdef INJECT
        if (!strcmp(c, "crowd")) crowd_case(); else table_case();
#else
        scene_case();
#endif
    }
    return 0;
}
