/* C12: threshold segmentation. */
#include "hcommon.h"
#include "hscene.h"
#include "segmentation.h"

static void print_targets(target *t, int n) {
    int i;
    P("\"got\":[");
    for (i = 0; i < n; i++)
        P("%s{\"n\":%d,\"nx\":%d,\"ny\":%d,\"sumg\":%d,\"x\":%d,\"y\":%d,\"tnr\":%d,\"pnr\":%d}", i ? "," : "", t[i].n, t[i].nx, t[i].ny,
          t[i].sumg, q(t[i].x, 1000), q(t[i].y, 1000), t[i].tnr, t[i].pnr);
    P("]");
}

int main(void) {
    char c[64];
    while (rcmd(c)) {
        /* image w h cam thres disco x0 x1 y0 y1 nnmin nnmax nxmin nxmax nymin nymax sumg pixels.. ; wide: the same, then 4 expected */
        int w = ri(), h = ri(), cam = ri(), thres = ri(), disco = ri(), win[4], lim[7], i, n, want[4];
        unsigned char *img = malloc(w * h), *keep = malloc(w * h);
        target *t = malloc((w * h + 1) * sizeof(target)); target_par tp; control_par *cp = make_cpar(4, w, h, .01, .01, 1, 1);
        memset(&tp, 0, sizeof tp);
        for (i = 0; i < 4; i++) win[i] = ri();
        for (i = 0; i < 7; i++) lim[i] = ri();
        for (i = 0; i < w * h; i++) img[i] = ri();
        if (!strcmp(c, "wide") || !strcmp(c, "many")) for (i = 0; i < 4; i++) want[i] = ri();
        memcpy(keep, img, w * h);
        for (i = 0; i < 4; i++) tp.gvthres[i] = i == cam ? thres : 255 - thres;
        tp.discont = disco; tp.nnmin = lim[0]; tp.nnmax = lim[1]; tp.nxmin = lim[2]; tp.nxmax = lim[3]; tp.nymin = lim[4]; tp.nymax = lim[5]; tp.sumg_min = lim[6];
        n = (!strcmp(c, "peaks") || !strcmp(c, "many") ? peak_fit : targ_rec)(img, &tp, win[0], win[1], win[2], win[3], cp, cam, t);
        begin(); P("{\"kind\":\"%s\",\"w\":%d,\"h\":%d,\"thres\":%d,\"disco\":%d,", c, w, h, thres, disco);
        PI_("win", win, 4); P(","); PI_("lim", lim, 7); P(",\"same\":%d,", !memcmp(img, keep, w * h));
        if (!strcmp(c, "wide") || !strcmp(c, "many")) { PI_("want", want, 4); P(","); }
        else { P("\"img\":["); for (i = 0; i < w * h; i++) P("%s%d", i ? "," : "", keep[i]); P("],"); }
        print_targets(t, n); P("}"); end();
        free(img); free(keep); free(t);
    }
    return 0;
}
