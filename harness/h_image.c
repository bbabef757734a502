/* C13: image preparation. */
#include "hcommon.h"
#include "hscene.h"
#include "image_processing.h"
#include <unistd.h>

static unsigned char *rimg(int n) { unsigned char *p = malloc(n); int i; for (i = 0; i < n; i++) p[i] = ri(); return p; }
static void out(const char *name, unsigned char *p, int n) { int i; P(",\"%s\":[", name); for (i = 0; i < n; i++) P("%s%d", i ? "," : "", p[i]); P("]"); }

int main(void) {
    char op[64];
    while (rcmd(op)) {
        /* op w h s sel filt file(0 none, 1 good, 2 short, 3 garbled) f*9(quarters) a.. [b..] */
        int w = ri(), h = ri(), s = ri(), sel = ri(), filt = ri(), file = ri(), f[9], i, n = w * h, ret = 1, two;
        unsigned char *a, *b = NULL, *o, *ka, *kb = NULL; control_par *cp = make_cpar(1, w, h, .01, .01, 1, 1);
        char name[64]; FILE *fp; filter_t ft;
        for (i = 0; i < 9; i++) f[i] = ri();
        for (i = 0; i < 9; i++) ft[i / 3][i % 3] = f[i] / 4.;
        two = !strcmp(op, "subtract") || !strcmp(op, "mask");
        a = rimg(n); ka = malloc(n); memcpy(ka, a, n);
        if (two) { b = rimg(n); kb = malloc(n); memcpy(kb, b, n); }
        o = malloc(n); memset(o, 0x5a, n);
        cp->chfield = sel;
        sprintf(name, "filter%d.par", (int)getpid());
        if (file) {
            fp = fopen(name, "w");
            for (i = 0; i < 9 && !(file == 2 && i == 6); i++) if (file == 3 && i == 4) fprintf(fp, "x "); else fprintf(fp, "%.2f%c", f[i] / 4., i % 3 == 2 ? '\n' : ' ');
            fclose(fp);
        }
        if (!strcmp(op, "subtract")) subtract_img(a, b, o, cp);
        else if (!strcmp(op, "mask")) subtract_mask(a, b, o, cp);
        else if (!strcmp(op, "copy")) copy_images(a, o, cp);
        else if (!strcmp(op, "mean")) lowpass_3(a, o, cp);
        else if (!strcmp(op, "filter")) ret = filter_3(a, o, ft, cp);
        else if (!strcmp(op, "blur")) ret = fast_box_blur(s, a, o, cp);
        else if (!strcmp(op, "split")) { memcpy(o, a, n); split(o, sel, cp); }
        else ret = prepare_image(a, o, s, filt, name, cp);     /* prepare, badfile */
        begin(); P("{\"op\":\"%s\",\"w\":%d,\"h\":%d,\"s\":%d,\"sel\":%d,\"filt\":%d,\"ret\":%d,", op, w, h, s, sel, filt, ret);
        PI_("f", f, 9); out("a", ka, n); if (two) out("b", kb, n); out("out", o, n);
        P(",\"same\":%d}", !memcmp(a, ka, n) && (!two || !memcmp(b, kb, n))); end();
        free(a); free(b); free(o); free(ka); free(kb); if (file) unlink(name);
    }
    return 0;
}
