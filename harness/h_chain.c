/* C29: the whole chain: pictures of a few particles -> targets -> groups -> points -> files -> tracks.
 *  seed cams particles frames water hidden(per cent of sightings taken from a fourth camera) add lost(per cent)
 * lost: points taken away again before storing, of particles there in the two frames before, for tracking to add
 * A scene is drawn at random until nothing about it is ambiguous (see lonely() and clear()); `drawn` says whether
 * one was found. Everything happens in a directory of its own under the current one. */
#include "hcommon.h"
#include "hscene.h"
#include "segmentation.h"
#include "correspondences.h"
#include "orientation.h"
#include "track.h"
#include <unistd.h>
#include <sys/stat.h>
#define MP 12
#define MF 10
#define W 640
#define H 480
#define EPS 0.008
static int nc, K, T, water, add; static int lost[MP][MF];
static double pos[MP][MF][3]; static int on[MP][MF], seen[MP][MF][4]; static double px[MP][MF][4][2], flat[MP][MF][4][2];
static Calibration *cal[4]; static control_par *cp; static volume_par vp;
static double d3(double *a, double *b) { return sqrt((a[0]-b[0])*(a[0]-b[0]) + (a[1]-b[1])*(a[1]-b[1]) + (a[2]-b[2])*(a[2]-b[2])); }
static void draw(int hidden, int losing) {
    int k, t, i, c;
    for (k = 0; k < K; k++) {
        double v[3], a[3], s = 0, sp = .6 + .35 * rnd();
        for (i = 0; i < 3; i++) { pos[k][0][i] = (rnd() - .5) * (i == 0 ? 34 : i == 1 ? 22 : 16); v[i] = rnd() - .5; s += v[i] * v[i]; a[i] = (rnd() - .5) * (losing ? .05 : .12); }
        for (i = 0; i < 3; i++) v[i] *= sp / sqrt(s);
        for (t = 1; t < T; t++) for (i = 0; i < 3; i++) { pos[k][t][i] = pos[k][t-1][i] + v[i]; v[i] += a[i]; if (v[i] > 1.1) v[i] = 1.1; if (v[i] < -1.1) v[i] = -1.1; }
        /* there all the time, or from some frame to some frame: once, or three times or more */
        for (t = 0; t < T; t++) on[k][t] = 1;
        if (rnd() < .5) { int a0 = rndi(T), n = rnd() < .3 ? 1 : 3 + rndi(T); for (t = 0; t < T; t++) on[k][t] = t >= a0 && t < a0 + n; if (n > 1 && T - a0 < 3) for (t = 0; t < T; t++) on[k][t] = t == a0; }
        for (t = 0; t < T; t++) lost[k][t] = t > 1 && on[k][t] && on[k][t-1] && on[k][t-2] && !lost[k][t-1] && !lost[k][t-2] && rndi(100) < losing;
        for (t = 0; t < T; t++) {
            for (c = 0; c < nc; c++) seen[k][t][c] = on[k][t];
            if (nc == 4 && on[k][t] && rndi(100) < hidden) seen[k][t][rndi(4)] = 0;
        }
    }
}
/* never near another one, and always well inside every picture, apart from the others there */
static int lonely(void) {
    int k, j, t, s, c, n;
    for (k = 0; k < K; k++) for (j = 0; j < k; j++) for (t = 0; t < T; t++) for (s = 0; s < T; s++) if (abs(s - t) <= 2 && d3(pos[k][t], pos[j][s]) < 6) return 0;
    for (t = 0; t < T; t++) for (c = 0; c < nc; c++) { for (n = k = 0; k < K; k++) n += seen[k][t][c]; if (!n) return 0; }
    for (t = 0; t < T; t++) { for (n = k = 0; k < K; k++) n += on[k][t] && !lost[k][t]; if (!n) return 0; }
    for (k = 0; k < K; k++) for (t = 0; t < T; t++) for (c = 0; c < nc; c++) {
        double x, y; img_coord(pos[k][t], cal[c], cp->mm, &x, &y); metric_to_pixel(&px[k][t][c][0], &px[k][t][c][1], x, y, cp);
        flat_image_coord(pos[k][t], cal[c], cp->mm, &flat[k][t][c][0], &flat[k][t][c][1]);
        if (px[k][t][c][0] < 15 || px[k][t][c][0] > W - 15 || px[k][t][c][1] < 15 || px[k][t][c][1] > H - 15) return 0;
        for (j = 0; j < k; j++) if (seen[k][t][c] && seen[j][t][c] && hypot(px[k][t][c][0] - px[j][t][c][0], px[k][t][c][1] - px[j][t][c][1]) < 14) return 0;
    }
    return 1;
}
static int near_line(int t, int a, int i, int b, int j) {
    double x0, y0, x1, y1, m, d;
    epi_mm(flat[i][t][a][0], flat[i][t][a][1], cal[a], cal[b], cp->mm, &vp, &x0, &y0, &x1, &y1);
    m = hypot(x1 - x0, y1 - y0);
    d = fabs((flat[j][t][b][0] - x0) * (y1 - y0) - (flat[j][t][b][1] - y0) * (x1 - x0)) / m;
    return d < 2.5 * EPS;
}
/* no group of targets of different particles could be taken for one: none of three, or of two when there are two cameras */
static int clear(void) {
    int t, a, b, c, i, j, k;
    for (t = 0; t < T; t++) for (a = 0; a < nc; a++) for (b = a + 1; b < nc; b++) for (i = 0; i < K; i++) for (j = 0; j < K; j++) {
        if (!seen[i][t][a] || !seen[j][t][b] || !near_line(t, a, i, b, j)) continue;
        if (nc == 2) { if (i != j) return 0; continue; }
        for (c = b + 1; c < nc; c++) for (k = 0; k < K; k++)
            if (seen[k][t][c] && !(i == j && j == k) && near_line(t, a, i, c, k) && near_line(t, b, j, c, k)) return 0;
    }
    return 1;
}
static void picture(unsigned char *img, int t, int c) {
    int k, x, y;
    memset(img, 0, W * H);
    for (k = 0; k < K; k++) if (seen[k][t][c]) {
        double cx = px[k][t][c][0], cy = px[k][t][c][1], bright = 140 + (k * 29 + c * 17) % 100;
        for (y = (int) cy - 6; y <= (int) cy + 6; y++) for (x = (int) cx - 6; x <= (int) cx + 6; x++) {
            double r2 = (x + .5 - cx) * (x + .5 - cx) + (y + .5 - cy) * (y + .5 - cy);
            int v = img[y * W + x] + (int) (bright * exp(-r2 / (2 * 1.5 * 1.5)) + .5); img[y * W + x] = v > 255 ? 255 : v;
        }
    }
}
static char *rt = "rt", *li = "ptv", *pr = "added";
static void load(frame *f, int first, char **tb, int links) {
    int t, i, c;
    P("[");
    for (t = 0; t < T; t++) {
        int ok = read_frame(f, rt, links ? li : NULL, links ? pr : NULL, tb, first + t);
        P("%s{\"ok\":%d,\"x\":[", t ? "," : "", ok);
        for (i = 0; i < f->num_parts; i++) P("%s[%d,%d,%d]", i ? "," : "", q(f->path_info[i].x[0], 1000), q(f->path_info[i].x[1], 1000), q(f->path_info[i].x[2], 1000));
        P("],\"p\":["); for (i = 0; i < f->num_parts; i++) { P("%s[", i ? "," : ""); for (c = 0; c < nc; c++) P("%s%d", c ? "," : "", f->correspond[i].p[c]); P("]"); }
        P("],\"own\":["); for (c = 0; c < nc; c++) { P("%s[", c ? "," : ""); for (i = 0; i < f->num_targets[c]; i++) P("%s%d", i ? "," : "", f->targets[c][i].tnr); P("]"); }
        P("],\"tg\":["); for (c = 0; c < nc; c++) { P("%s[", c ? "," : ""); for (i = 0; i < f->num_targets[c]; i++) P("%s[%d,%d]", i ? "," : "", q(f->targets[c][i].x, 100), q(f->targets[c][i].y, 100)); P("]"); }
        P("],\"prev\":["); for (i = 0; i < f->num_parts; i++) P("%s%d", i ? "," : "", links ? f->path_info[i].prev : -1);
        P("],\"next\":["); for (i = 0; i < f->num_parts; i++) P("%s%d", i ? "," : "", links ? f->path_info[i].next : -2);
        P("]}");
    }
    P("]");
}
static void scene(int seed) {
    int hidden, losing, t, c, i, k, tries, drawn = 0, first; char dir[64], name[4][64], *tb[4]; unsigned char *img; frame f;
    target_par tpar = {220, {9, 9, 9, 9}, 4, 400, 2, 60, 2, 60, 50, 3}; tracking_run *tr; sequence_par *sp; track_par *tp;
    nc = ri(); K = ri(); T = ri(); water = ri(); hidden = ri(); add = ri(); losing = ri();
    rng_seed(seed); first = (int[]){1, 9, 98, 997, 9998, 100, 10000}[rndi(7)];
    cp = make_cpar(nc, W, H, .01, .01, water ? 1.46 : 1, water ? 6 : 1);
    memset(&vp, 0, sizeof vp); vp.X_lay[0] = -40; vp.X_lay[1] = 40; vp.Zmin_lay[0] = vp.Zmin_lay[1] = -25; vp.Zmax_lay[0] = vp.Zmax_lay[1] = 25; vp.cn = vp.cnx = vp.cny = .1; vp.csumg = .1; vp.corrmin = 0; vp.eps0 = EPS;
    for (c = 0; c < nc; c++) {
        double sx = c % 2 ? -1 : 1, sy = c / 2 ? -1 : 1;
        if (nc == 2) sy = .2 * sx;
        if (nc == 3 && c == 2) { sx = .1; sy = -1.3; }
        cal[c] = look_at_origin(sx * (90 + 20 * rnd()), sy * (70 + 20 * rnd()), 390 + 20 * rnd(), 40, (rnd() - .5) * .3);
        cal[c]->glass_par.vec_z = 45;
        cal[c]->int_par.xh = (rnd() - .5) * .2; cal[c]->int_par.yh = (rnd() - .5) * .2;
        cal[c]->added_par.k1 = (rnd() - .5) * 4e-4; cal[c]->added_par.p1 = (rnd() - .5) * 1e-5; cal[c]->added_par.she = (rnd() - .5) * 1e-3; cal[c]->added_par.scx = 1 + (rnd() - .5) * 1e-3;
    }
    for (tries = 0; tries < 200000 && !drawn; tries++) { draw(hidden, losing); drawn = lonely() && clear(); }
    begin(); P("{\"no\":%d,\"cams\":%d,\"frames\":%d,\"particles\":%d,\"water\":%d,\"add\":%d,\"drawn\":%d,\"tries\":%d", seed, nc, T, K, water, add, drawn, tries);
    if (drawn) {
        P(",\"truth\":[");
        for (t = 0; t < T; t++) {
            P("%s[", t ? "," : "");
            for (k = 0, i = 0; k < K; k++) if (on[k][t]) {
                P("%s{\"id\":%d,\"lost\":%d,\"x\":[%d,%d,%d],\"seen\":[", i++ ? "," : "", k, lost[k][t], q(pos[k][t][0], 1000), q(pos[k][t][1], 1000), q(pos[k][t][2], 1000));
                for (c = 0; c < nc; c++) P("%s[%d,%d,%d]", c ? "," : "", seen[k][t][c], q(px[k][t][c][0], 100), q(px[k][t][c][1], 100));
                P("]}");
            }
            P("]");
        }
        P("]");
        sprintf(dir, "s%d", seed); mkdir(dir, 0777); if (chdir(dir)) exit(3);
        for (c = 0; c < 4; c++) { sprintf(name[c], "cam%d.", c); tb[c] = name[c]; }
        img = malloc(W * H); frame_init(&f, nc, 400);
        P(",\"counts\":[");
        for (t = 0; t < T; t++) {
            coord_2d *crd[4]; n_tupel *con; int counts[4];
            for (c = 0; c < nc; c++) {
                picture(img, t, c);
                f.num_targets[c] = targ_rec(img, &tpar, 0, W, 0, H, cp, c, f.targets[c]);
                quicksort_target_y(f.targets[c], f.num_targets[c]);
                for (i = 0; i < f.num_targets[c]; i++) f.targets[c][i].pnr = i;
                crd[c] = malloc((f.num_targets[c] + 1) * sizeof(coord_2d));
                for (i = 0; i < f.num_targets[c]; i++) {
                    double x, y; pixel_to_metric(&x, &y, f.targets[c][i].x, f.targets[c][i].y, cp);
                    dist_to_flat(x, y, cal[c], &crd[c][i].x, &crd[c][i].y, 1e-6); crd[c][i].pnr = i;
                }
                quicksort_coord2d_x(crd[c], f.num_targets[c]);
            }
            con = correspondences(&f, crd, &vp, cp, cal, counts);
            P("%s", t ? "," : ""); P("[%d,%d,%d,%d]", counts[0], counts[1], counts[2], counts[3]);
            f.num_parts = counts[3];
            for (i = 0; i < counts[3] && i < 400; i++) {
                vec2d at[4];
                f.correspond[i].nr = i + 1; memset(&f.path_info[i], 0, sizeof f.path_info[i]); f.path_info[i].prev = -1; f.path_info[i].next = -2;
                for (c = 0; c < 4; c++) {
                    int p = c < nc ? con[i].p[c] : -1;
                    f.correspond[i].p[c] = p < 0 ? -1 : crd[c][p].pnr;
                    if (c >= nc) continue;
                    at[c][0] = p < 0 ? COORD_UNUSED : crd[c][p].x; at[c][1] = p < 0 ? COORD_UNUSED : crd[c][p].y;
                }
                point_position(at, nc, cp->mm, cal, f.path_info[i].x);
            }
            /* points lost: nearer to the particle than to anything else */
            for (k = 0; k < K; k++) if (on[k][t] && lost[k][t]) {
                int best = -1, j;
                for (i = 0; i < f.num_parts; i++) if (d3(f.path_info[i].x, pos[k][t]) < 2 && (best < 0 || d3(f.path_info[i].x, pos[k][t]) < d3(f.path_info[best].x, pos[k][t]))) best = i;
                if (best < 0) continue;
                for (i = best; i + 1 < f.num_parts; i++) { f.path_info[i] = f.path_info[i+1]; f.correspond[i] = f.correspond[i+1]; f.correspond[i].nr = i + 1; }
                f.num_parts--;
                for (c = 0; c < nc; c++) for (j = 0; j < f.num_targets[c]; j++) { target *g = &f.targets[c][j]; if (g->tnr == best) g->tnr = -1; else if (g->tnr > best) g->tnr--; }
            }
            free(con); for (c = 0; c < nc; c++) free(crd[c]);
            if (!write_frame(&f, rt, li, NULL, tb, first + t)) P("0");   /* not JSON: stops the check */
        }
        P("],\"found\":"); load(&f, first, tb, 0);
        tp = calloc(1, sizeof *tp); tp->dvxmin = tp->dvymin = tp->dvzmin = -1.6; tp->dvxmax = tp->dvymax = tp->dvzmax = 1.6; tp->add = add; tp->dacc = .9; tp->dangle = 100;
        sp = new_sequence_par(nc); sp->first = first; sp->last = first + T - 1; for (c = 0; c < nc; c++) strcpy(sp->img_base_name[c], name[c]);
        { volume_par *v = malloc(sizeof *v); *v = vp; tr = tr_new(sp, tp, v, cp, 4, 400, rt, li, pr, cal, 1e-5); }
        track_forward_start(tr);
        for (t = first; t < sp->last; t++) trackcorr_c_loop(tr, t);
        trackcorr_c_finish(tr, sp->last);
        P(",\"forward\":"); load(&f, first, tb, 1);
        trackback_c(tr);
        P(",\"backward\":"); load(&f, first, tb, 1);
        for (t = first; t <= sp->last; t++) {
            char b[99]; sprintf(b, "rt.%d", t); unlink(b); sprintf(b, "ptv.%d", t); unlink(b); sprintf(b, "added.%d", t); unlink(b);
            for (c = 0; c < nc; c++) { sprintf(b, "cam%d.%04d_targets", c, t); unlink(b); }
        }
        free(img); free_frame(&f);
        tr_free(tr); free(tr);
        if (chdir("..")) exit(3); rmdir(dir);
    }
    P("}"); end();
    for (c = 0; c < nc; c++) free(cal[c]);
}
int main(void) { char s[64]; while (rcmd(s)) scene(atoi(s)); return 0; }
