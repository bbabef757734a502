/* C05: velocity bounds, change of velocity and direction. Input: rule v[3] dv[6] a[3] b[3] c[3]; half mm, bounds in 1/100 mm. */
#include "hcommon.h"
#include "track.h"
int main(void) {
    char op[64]; int i, k, x[18], in; track_par t, t0; vec3d p[4], p0[4]; double ang, acc;
    while (rcmd(op)) {
        for (i = 0; i < 18; i++) x[i] = ri();
        memset(&t, 0, sizeof t); t.dvxmin = x[3] / 100.; t.dvxmax = x[4] / 100.; t.dvymin = x[5] / 100.; t.dvymax = x[6] / 100.; t.dvzmin = x[7] / 100.; t.dvzmax = x[8] / 100.;
        for (i = 0; i < 4; i++) for (k = 0; k < 3; k++) p[i][k] = x[(i ? 6 + 3 * i : 0) + k] / 2.;
        t0 = t; memcpy(p0, p, sizeof p);
        in = pos3d_in_bounds(p[0], &t); angle_acc(p[1], p[2], p[3], &ang, &acc);
        begin();
        P("{\"v\":[%d,%d,%d],\"dv\":[%d,%d,%d,%d,%d,%d],\"a\":[%d,%d,%d],\"b\":[%d,%d,%d],\"c\":[%d,%d,%d],\"within\":%d,\"acc\":%d,\"ang\":%d,\"same\":%d}",
          x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12], x[13], x[14], x[15], x[16], x[17], in != 0, q(acc, 1000), q(ang, 1000),
          !memcmp(&t, &t0, sizeof t) && !memcmp(p, p0, sizeof p));
        end();
    }
    return 0;
}
