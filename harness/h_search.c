/* C08, C10, C11: image-space candidate searches, candidate ranking, epipolar band search, sorting. */
#include "hcommon.h"
#include "track.h"
#include "correspondences.h"
#include "epi.h"
#ifndef TR_UNUSED
#define TR_UNUSED -1
#endif

static void sort_case(void) {
    char *kind = rs(); int n = ri(), i, *k = malloc((n + 1) * sizeof(int));
    for (i = 0; i < n; i++) k[i] = ri();
    begin();
    P("{\"kind\":\"%s\",", kind); PI_("keys", k, n); P(",\"out\":[");
    if (!strcmp(kind, "con")) {
        n_tupel *a = malloc(n * sizeof *a);
        for (i = 0; i < n; i++) { a[i].corr = k[i]; a[i].p[0] = i + 1; a[i].p[1] = 2 * i; a[i].p[2] = -i; a[i].p[3] = i + 7; }
        quicksort_con(a, n);
        for (i = 0; i < n; i++) P("%s[%d,%d,%d,%d,%d]", i ? "," : "", (int)a[i].corr, a[i].p[0], a[i].p[1], a[i].p[2], a[i].p[3]);
        free(a);
    } else if (!strcmp(kind, "y")) {
        target *a = malloc(n * sizeof *a);
        for (i = 0; i < n; i++) { target t = {i + 1, 2 * i, k[i], -i, i + 7, i + 8, i + 9, i + 10}; a[i] = t; }
        quicksort_target_y(a, n);
        for (i = 0; i < n; i++) P("%s[%d,%d,%d,%d,%d,%d,%d,%d]", i ? "," : "", (int)a[i].y, a[i].pnr, (int)a[i].x, a[i].n, a[i].nx, a[i].ny, a[i].sumg, a[i].tnr);
        free(a);
    } else if (!strcmp(kind, "x")) {
        coord_2d *a = malloc(n * sizeof *a);
        for (i = 0; i < n; i++) { a[i].pnr = i + 1; a[i].x = k[i]; a[i].y = 2 * i; }
        quicksort_coord2d_x(a, n);
        for (i = 0; i < n; i++) P("%s[%d,%d,%d]", i ? "," : "", (int)a[i].x, a[i].pnr, (int)a[i].y);
        free(a);
    } else {
        float *a = malloc(n * sizeof *a); int *b = malloc(n * sizeof *b);
        for (i = 0; i < n; i++) { a[i] = k[i] / 8.; b[i] = i + 1; }
        sort(n, a, b);
        for (i = 0; i < n; i++) P("%s[%d,%d]", i ? "," : "", (int)(a[i] * 8), b[i]);
        free(a); free(b);
    }
    P("]}"); free(k); end();
}

/* lists are explicit (gen = 0) or by formula: y = base + i / k, x = (i * m) % w, unclaimed when i % t == 0 */
static target *target_list(int *n, int unit) {
    int i, g = ri(); target *a;
    *n = ri();
    a = malloc((*n + 1) * sizeof *a);
    if (!g) {
        P("\"gen\":0,\"n\":%d,\"list\":[", *n);
        for (i = 0; i < *n; i++) {
            int x = ri(), y = ri(), t = ri();
            target tt = {i, (double)x / unit, (double)y / unit, 1, 1, 1, 1, t}; a[i] = tt;
            P("%s[%d,%d,%d]", i ? "," : "", x, y, t);
        }
        P("]");
    } else {
        int k = ri(), m = ri(), w = ri(), t = ri();
        P("\"gen\":1,\"n\":%d,\"k\":%d,\"m\":%d,\"w\":%d,\"t\":%d", *n, k, m, w, t);
        for (i = 0; i < *n; i++) {
            target tt = {i, (double)((i * m) % w) / unit, (double)(i / k) / unit, 1, 1, 1, 1, (i % t) ? i : -1}; a[i] = tt;
        }
    }
    return a;
}

static void cand_case(int rest) {
    control_par *cp; int n, i, p[4] = {77, 77, 77, 77}, r, cx, cy, l, rr, u, d, ix, iy; target *a;
    char *names[] = {"a", "b", "c", "d"};
    cp = new_control_par(1); cp->imx = ix = ri(); cp->imy = iy = ri();
    cx = ri(); cy = ri(); l = ri(); rr = ri(); u = ri(); d = ri();
    begin();
    P("{\"kind\":\"%s\",\"imx\":%d,\"imy\":%d,\"c\":[%d,%d],\"win\":[%d,%d,%d,%d],", rest ? "rest" : "near", ix * 4, iy * 4, cx, cy, l, rr, u, d);
    a = target_list(&n, 4);
    if (rest) r = candsearch_in_pix_rest(a, n, cx / 4., cy / 4., l / 4., rr / 4., u / 4., d / 4., p, cp);
    else r = candsearch_in_pix(a, n, cx / 4., cy / 4., l / 4., rr / 4., u / 4., d / 4., p, cp);
    P(",\"ret\":%d,", r); PI_("p", p, rest ? 1 : 4); P("}");
    free(a); free_control_par(cp); end();
}

static void freq_case(void) {
    int nc = ri(), i, j, n; foundpix *it = malloc(nc * MAX_CANDS * sizeof *it);
    reset_foundpix_array(it, nc * MAX_CANDS, nc);
    begin(); P("{\"kind\":\"freq\",\"cams\":%d,\"ids\":[", nc);
    for (i = 0; i < nc; i++) {
        P("%s[", i ? "," : "");
        for (j = 0; j < MAX_CANDS; j++) {
            int id = ri();
            P("%s%d", j ? "," : "", id);
            it[i * MAX_CANDS + j].ftnr = id;
            if (id != TR_UNUSED) it[i * MAX_CANDS + j].whichcam[i] = 1;
        }
        P("]");
    }
    n = sort_candidates_by_freq(it, nc);
    P("],\"ret\":%d,\"out\":[", n);
    for (i = 0; i < nc * MAX_CANDS; i++) {
        P("%s[%d,%d", i ? "," : "", it[i].ftnr, it[i].freq);
        for (j = 0; j < nc; j++) P(",%d", it[i].whichcam[j]);
        P("]");
    }
    P("]}"); free(it); end();
}

static void epi_case(void) {
    /* imx imy pitch(1/8 mm) xh yh | xa ya xb yb | tol*8 | limits/16 cn cnx cny csumg | n nx ny sumg | list */
    control_par *cp = new_control_par(1); volume_par vp; Calibration *cal = calloc(1, sizeof *cal);
    candidate *cand = malloc(MAXCAND * sizeof *cand); coord_2d *crd; target *pix;
    int im[2], pitch[2], h[2], s[4], tol, lim[4], ref[4], g, n, i, r;
    for (i = 0; i < 2; i++) im[i] = ri(); for (i = 0; i < 2; i++) pitch[i] = ri(); for (i = 0; i < 2; i++) h[i] = ri();
    for (i = 0; i < 4; i++) s[i] = ri(); tol = ri();
    for (i = 0; i < 4; i++) lim[i] = ri(); for (i = 0; i < 4; i++) ref[i] = ri();
    cp->imx = im[0]; cp->imy = im[1]; cp->pix_x = pitch[0] / 8.; cp->pix_y = pitch[1] / 8.;
    memset(&vp, 0, sizeof vp); vp.eps0 = tol / 8.; vp.cn = lim[0] / 16.; vp.cnx = lim[1] / 16.; vp.cny = lim[2] / 16.; vp.csumg = lim[3] / 16.;
    cal->int_par.xh = h[0]; cal->int_par.yh = h[1]; cal->added_par.scx = 1;
    begin(); P("{"); PI_("im", im, 2); P(","); PI_("pitch", pitch, 2); P(","); PI_("h", h, 2); P(","); PI_("seg", s, 4);
    P(",\"tol\":%d,", tol); PI_("lim", lim, 4); P(","); PI_("ref", ref, 4);
    g = ri(); n = ri();
    crd = malloc((n + 1) * sizeof *crd); pix = malloc((n + 1) * sizeof *pix);
    P(",\"gen\":%d,\"n\":%d", g, n);
    if (!g) {
        P(",\"list\":[");
        for (i = 0; i < n; i++) {
            int x = ri(), y = ri(), p = ri(), a = ri(), b = ri(), c = ri(), d = ri();
            target t = {p, 0, 0, a, b, c, d, -1};
            crd[i].x = x / 2.; crd[i].y = y / 2.; crd[i].pnr = p; pix[p] = t;
            P("%s[%d,%d,%d,%d,%d,%d]", i ? "," : "", x, y, a, b, c, d);
        }
        P("]");
    } else { /* x = i / k - off, y = (i * m) % w - w / 2 (half mm), all alike */
        int k = ri(), off = ri(), m = ri(), w = ri();
        P(",\"k\":%d,\"off\":%d,\"m\":%d,\"w\":%d", k, off, m, w);
        for (i = 0; i < n; i++) {
            target t = {n - 1 - i, 0, 0, 4, 2, 2, 40, -1};
            crd[i].x = (i / k - off) / 2.; crd[i].y = ((i * m) % w - w / 2) / 2.; crd[i].pnr = n - 1 - i; pix[n - 1 - i] = t;
        }
    }
    r = find_candidate(crd, pix, n, s[0], s[1], s[2], s[3], ref[0], ref[1], ref[2], ref[3], cand, &vp, cp, cal);
    P(",\"ret\":%d,\"cand\":[", r);
    for (i = 0; i < r; i++) P("%s[%d,%d,%d]", i ? "," : "", cand[i].pnr, q(cand[i].tol, 1000), q(cand[i].corr, 1000));
    P("]}");
    free(crd); free(pix); free(cand); free(cal); free_control_par(cp); end();
}

int main(void) {
    char c[64];
    while (rcmd(c)) {
        if (!strcmp(c, "sort")) sort_case();
        else if (!strcmp(c, "near")) cand_case(0);
        else if (!strcmp(c, "rest")) cand_case(1);
        else if (!strcmp(c, "freq")) freq_case();
        else if (!strcmp(c, "epi")) epi_case();
        else { fprintf(stderr, "bad command %s\n", c); return 3; }
    }
    return 0;
}
