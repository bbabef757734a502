/* C18: pixel and metric coordinates. */
#include "hcommon.h"
#include "trafo.h"
#include "parameters.h"
static void pairs(const char *name, double (*a)[2], int n, double s) { int i; P("\"%s\":[", name); for (i = 0; i < n; i++) P("%s[%d,%d]", i ? "," : "", q(a[i][0], s), q(a[i][1], s)); P("],"); }
int main(void) {
    char op[64];
    while (rcmd(op)) {
        int i, n, mode; control_par *c = new_control_par(1), k; double X, Y;
        c->imx = ri(); c->imy = ri(); mode = c->chfield = 0;
        if (!strcmp(op, "grid")) {
            int px = ri(), py = ri(); static double pt[512][2], f[512][2], o[512][2], b[512][2], ob[512][2], m[512][2], mp[512][2];
            mode = c->chfield = ri(); c->pix_x = px / 1024.; c->pix_y = py / 1024.; n = ri(); k = *c;
            for (i = 0; i < n; i++) {
                pt[i][0] = ri() / 16.; pt[i][1] = ri() / 16.;
                m[i][0] = ri() * px / 16384.; m[i][1] = ri() * py / 16384.;
                pixel_to_metric(&f[i][0], &f[i][1], pt[i][0], pt[i][1], c);
                metric_to_pixel(&b[i][0], &b[i][1], f[i][0], f[i][1], c);
                old_pixel_to_metric(&o[i][0], &o[i][1], pt[i][0], pt[i][1], c->imx, c->imy, c->pix_x, c->pix_y, mode);
                old_metric_to_pixel(&ob[i][0], &ob[i][1], o[i][0], o[i][1], c->imx, c->imy, c->pix_x, c->pix_y, mode);
                /* in place */
                X = m[i][0]; Y = m[i][1]; metric_to_pixel(&X, &Y, X, Y, c); mp[i][0] = X; mp[i][1] = Y;
            }
            begin(); P("{\"op\":\"grid\",\"imx\":%d,\"imy\":%d,\"px\":%d,\"py\":%d,\"mode\":%d,\"old\":1,", c->imx, c->imy, px, py, mode);
            pairs("pts", pt, n, 16); pairs("fwd", f, n, 16384); pairs("ofwd", o, n, 16384); pairs("back", b, n, 32); pairs("oback", ob, n, 32);
            pairs("mets", m, n, 16384); pairs("met2", mp, n, 32);
            P("\"same\":%d}", c->imx == k.imx && c->imy == k.imy && c->pix_x == k.pix_x && c->pix_y == k.pix_y && c->chfield == k.chfield); end();
        } else {
            c->pix_x = ri() * 1e-7; c->pix_y = ri() * 1e-7; c->chfield = ri(); n = ri();
            begin(); P("{\"op\":\"trip\",\"imx\":%d,\"imy\":%d,\"err\":[", c->imx, c->imy);
            for (i = 0; i < n; i++) {
                double x = ri() / 1000., y = ri() / 1000., u = ri() / 1000., v = ri() / 1000.;
                pixel_to_metric(&X, &Y, x, y, c); metric_to_pixel(&X, &Y, X, Y, c); P("%s%d,%d,", i ? "," : "", q(X - x, 1e6), q(Y - y, 1e6));
                metric_to_pixel(&X, &Y, u, v, c); pixel_to_metric(&X, &Y, X, Y, c); P("%d,%d", q(X - u, 1e8), q(Y - v, 1e8));
            }
            P("]}"); end();
        }
        free_control_par(c);
    }
    return 0;
}
