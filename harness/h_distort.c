/* C19: distortion and its correction. All points of a record share the camera. */
#include "hcommon.h"
#include "trafo.h"
#include "calibration.h"
#define N 64
static double sh[N][2], bk[N][2], fo[N][2], id[N][2], ro[N][2];
static void pairs(const char *name, double (*a)[2], int n) { int i; P("\"%s\":[", name); for (i = 0; i < n; i++) P("%s[%d,%d]", i ? "," : "", q(a[i][0], 1e8), q(a[i][1], 1e8)); P("],"); }
int main(void) {
    char op[64];
    while (rcmd(op)) {
        Calibration c, k; int d[7], i, n, neutral = 1; double tol, pts[N][2], size = 0, s; ap_52 ap;
        memset(&c, 0, sizeof c);
        for (i = 0; i < 7; i++) { d[i] = ri(); if (d[i]) neutral = 0; }
        c.int_par.xh = ri() / 1000.; c.int_par.yh = ri() / 1000.; c.int_par.cc = 50;
        c.added_par.k1 = d[0] * 1e-6; c.added_par.k2 = d[1] * 1e-8; c.added_par.k3 = d[2] * 1e-10;
        c.added_par.p1 = d[3] * 1e-6; c.added_par.p2 = d[4] * 1e-6; c.added_par.scx = (1000 + d[5]) / 1000.; c.added_par.she = d[6] / 1000.;
        ap = c.added_par; k = c; tol = ri() * 1e-9; n = ri();
        for (i = 0; i < n; i++) {                                   /* points relative to the distortion centre, in mm or thousandths */
            double x = ri(), y = ri(), fx, fy, u = 12345.678, v = 12345.678, a = 23456.789, b = 23456.789;
            if (strcmp(op, "grid")) { x /= 1000; y /= 1000; }
            pts[i][0] = x; pts[i][1] = y;
            fx = x - c.int_par.xh; fy = y - c.int_par.yh;           /* the same point as a flat coordinate */
            flat_to_dist(fx, fy, &c, &u, &v); sh[i][0] = u - x; sh[i][1] = v - y;
            dist_to_flat(u, v, &c, &a, &b, tol); bk[i][0] = a - fx; bk[i][1] = b - fy;
            id[i][0] = u - x; id[i][1] = v - y;
            if (neutral) { a = b = 12345.678; dist_to_flat(x, y, &c, &a, &b, tol); if (a != x - c.int_par.xh || b != y - c.int_par.yh) id[i][0] += a - (x - c.int_par.xh) + 1; }
            dist_to_flat(x, y, &c, &a, &b, tol); u = a; v = b;      /* in place */
            flat_to_dist(u, v, &c, &u, &v); fo[i][0] = u - x; fo[i][1] = v - y;
            u = v = 34567.89; distort_brown_affin(x, y, ap, &u, &v);
            a = b = 34567.89; correct_brown_affin(u, v, ap, &a, &b); ro[i][0] = a - x; ro[i][1] = b - y;
            s = fabs(u - x) + fabs(v - y); if (s > size) size = s;
        }
        begin();
        P("{\"op\":\"%s\",\"d\":{\"k1\":%d,\"k2\":%d,\"k3\":%d,\"p1\":%d,\"p2\":%d,\"scx\":%d,\"she\":%d},\"neutral\":%d,\"size\":%d,", op, d[0], d[1], d[2], d[3], d[4], d[5], d[6], neutral, q(size, 1e8));
        P("\"pts\":["); for (i = 0; i < n; i++) { double f = strcmp(op, "grid") ? 1e3 : 1; P("%s[%d,%d]", i ? "," : "", q(pts[i][0], f), q(pts[i][1], f)); } P("],");
        pairs("shift", sh, n); pairs("back", bk, n); pairs("forth", fo, n); pairs("same", id, n); pairs("rough", ro, n);
        P("\"tol\":%d,\"roughtol\":%d,\"kept\":%d}", 20 + (int)(tol * 1e9), 20 + q(size, 1e8) / 8, !memcmp(&c, &k, sizeof c)); end();
    }
    return 0;
}
