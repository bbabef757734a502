/* C15: two deep copies of one random record, some fields of the second changed, compared both ways. */
#include "hcommon.h"
#include "hscene.h"
#include "tracking_frame_buf.h"

#define CAMS 4
typedef struct { target t; corres c; struct Pstruct p; Calibration cal; track_par tr; volume_par v; target_par tp; mm_np mm; sequence_par *s; control_par *cp; int sized; } all;
enum { INT, DBL, FLT, STR };
static double dv(void) { int k = rndi(4); return k == 0 ? rndi(9) - 4 : k == 1 ? (rnd() - .5) * 1e6 : k == 2 ? (rnd() - .5) * 1e-3 : rnd() * 10; }
static int iv(void) { int k = rndi(4); return k == 0 ? rndi(4) - 2 : k == 1 ? rndi(300) : rndi(2000000000) - 1000000000; }
static void word(char *w) { int i, n = 1 + rndi(rndi(3) ? 20 : SEQ_FNAME_MAX_LEN - 2); for (i = 0; i < n; i++) w[i] = 'a' + rndi(26); w[n] = 0; }

static void fill(all *a) {
    int i; double *d; int *n;
#define DS(x) for (d = (double *)&(x), i = 0; i < (int)(sizeof(x) / sizeof(double)); i++) d[i] = dv()
#define IS(x) for (n = (int *)&(x), i = 0; i < (int)(sizeof(x) / sizeof(int)); i++) n[i] = iv()
    IS(a->t); a->t.x = dv(); a->t.y = dv(); IS(a->c); IS(a->p); DS(a->p.x); for (i = 0; i < POSI; i++) a->p.decis[i] = dv(); a->p.finaldecis = dv();
    DS(a->cal.ext_par); DS(a->cal.int_par); DS(a->cal.glass_par); DS(a->cal.added_par);
    a->cal.mmlut.data = NULL;
    a->tr.dacc = dv(); a->tr.dangle = dv(); a->tr.dvxmax = dv(); a->tr.dvxmin = dv(); a->tr.dvymax = dv(); a->tr.dvymin = dv(); a->tr.dvzmax = dv(); a->tr.dvzmin = dv();
    a->tr.dsumg = iv(); a->tr.dn = iv(); a->tr.dnx = iv(); a->tr.dny = iv(); a->tr.add = iv();
    DS(a->v); IS(a->tp); a->mm.nlay = 1 + rndi(3); a->mm.n1 = dv(); DS(a->mm.n2); DS(a->mm.d); a->mm.n3 = dv();
    a->s = new_sequence_par(CAMS); a->s->first = iv(); a->s->last = iv();
    a->cp = new_control_par(CAMS);
    for (i = 0; i < CAMS; i++) { word(a->s->img_base_name[i]); word(a->cp->img_base_name[i]); word(a->cp->cal_img_base_name[i]); }
    a->cp->hp_flag = iv(); a->cp->allCam_flag = iv(); a->cp->tiff_flag = iv(); a->cp->imx = iv(); a->cp->imy = iv(); a->cp->chfield = iv(); a->cp->pix_x = dv(); a->cp->pix_y = dv();
    *a->cp->mm = a->mm; a->sized = 0;
}
static void copy(all *b, all *a, int cams) {
    int i; control_par *c = new_control_par(cams), *o = a->cp; mm_np *mm = c->mm; char **n1 = c->img_base_name, **n2 = c->cal_img_base_name;
    *b = *a;
    *c = *o; c->num_cams = cams; c->mm = mm; *mm = *o->mm; c->img_base_name = n1; c->cal_img_base_name = n2; b->cp = c;
    b->s = new_sequence_par(cams); b->s->first = a->s->first; b->s->last = a->s->last;
    for (i = 0; i < cams && i < CAMS; i++) { strcpy(b->s->img_base_name[i], a->s->img_base_name[i]); strcpy(n1[i], o->img_base_name[i]); strcpy(n2[i], o->cal_img_base_name[i]); }
}
static void release(all *a) { free_sequence_par(a->s); free_control_par(a->cp); }
static int cmp(const char *t, all *a, all *b) {
#define T(n, e) if (!strcmp(t, n)) return (e)
    T("target", compare_targets(&a->t, &b->t)); T("corres", compare_corres(&a->c, &b->c)); T("path", compare_path_info(&a->p, &b->p));
    T("exterior", compare_exterior(&a->cal.ext_par, &b->cal.ext_par)); T("interior", compare_interior(&a->cal.int_par, &b->cal.int_par));
    T("glass", compare_glass(&a->cal.glass_par, &b->cal.glass_par)); T("added", compare_addpar(&a->cal.added_par, &b->cal.added_par)); T("calib", compare_calib(&a->cal, &b->cal));
    T("sequence", compare_sequence_par(a->s, b->s)); T("track", compare_track_par(&a->tr, &b->tr)); T("volume", compare_volume_par(&a->v, &b->v));
    T("control", compare_control_par(a->cp, b->cp)); T("targpar", compare_target_par(&a->tp, &b->tp)); T("media", compare_mm_np(&a->mm, &b->mm));
    exit(3);
}
static void *field(const char *t, all *a, const char *f0, int *kind) {
    char f[32]; int i = 0; char *dot; strcpy(f, f0); if ((dot = strchr(f, '.'))) { i = atoi(dot + 1); *dot = 0; }
#define F(rec, n, k) if (!strcmp(f, #n)) { *kind = k; return &(rec).n; }
#define A(rec, n, k) if (!strcmp(f, #n)) { *kind = k; return &(rec).n[i]; }
    if (!strcmp(t, "target")) { F(a->t, pnr, INT) F(a->t, x, DBL) F(a->t, y, DBL) F(a->t, n, INT) F(a->t, nx, INT) F(a->t, ny, INT) F(a->t, sumg, INT) F(a->t, tnr, INT) }
    if (!strcmp(t, "corres")) { F(a->c, nr, INT) A(a->c, p, INT) }
    if (!strcmp(t, "path")) { A(a->p, x, DBL) F(a->p, prev, INT) F(a->p, next, INT) F(a->p, prio, INT) F(a->p, finaldecis, FLT) F(a->p, inlist, INT) A(a->p, decis, FLT) A(a->p, linkdecis, INT) }
    if (!strcmp(t, "exterior") || !strcmp(t, "calib")) { Exterior *e = &a->cal.ext_par; F(*e, x0, DBL) F(*e, y0, DBL) F(*e, z0, DBL) F(*e, omega, DBL) F(*e, phi, DBL) F(*e, kappa, DBL)
        if (!strcmp(f, "dm")) { *kind = DBL; return &e->dm[i / 3][i % 3]; } }
    if (!strcmp(t, "interior") || !strcmp(t, "calib")) { F(a->cal.int_par, xh, DBL) F(a->cal.int_par, yh, DBL) F(a->cal.int_par, cc, DBL) }
    if (!strcmp(t, "glass") || !strcmp(t, "calib")) { F(a->cal.glass_par, vec_x, DBL) F(a->cal.glass_par, vec_y, DBL) F(a->cal.glass_par, vec_z, DBL) }
    if (!strcmp(t, "added") || !strcmp(t, "calib")) { ap_52 *p = &a->cal.added_par; F(*p, k1, DBL) F(*p, k2, DBL) F(*p, k3, DBL) F(*p, p1, DBL) F(*p, p2, DBL) F(*p, scx, DBL) F(*p, she, DBL) }
    if (!strcmp(t, "sequence")) { F(*a->s, first, INT) F(*a->s, last, INT) if (!strcmp(f, "img")) { *kind = STR; return a->s->img_base_name[i]; } }
    if (!strcmp(t, "track")) { track_par *r = &a->tr; F(*r, dacc, DBL) F(*r, dangle, DBL) F(*r, dvxmax, DBL) F(*r, dvxmin, DBL) F(*r, dvymax, DBL) F(*r, dvymin, DBL) F(*r, dvzmax, DBL) F(*r, dvzmin, DBL)
        F(*r, dsumg, INT) F(*r, dn, INT) F(*r, dnx, INT) F(*r, dny, INT) F(*r, add, INT) }
    if (!strcmp(t, "volume")) { volume_par *r = &a->v; A(*r, X_lay, DBL) A(*r, Zmin_lay, DBL) A(*r, Zmax_lay, DBL) F(*r, cn, DBL) F(*r, cnx, DBL) F(*r, cny, DBL) F(*r, csumg, DBL) F(*r, eps0, DBL) F(*r, corrmin, DBL) }
    if (!strcmp(t, "control")) { control_par *r = a->cp; F(*r, hp_flag, INT) F(*r, allCam_flag, INT) F(*r, tiff_flag, INT) F(*r, imx, INT) F(*r, imy, INT) F(*r, chfield, INT) F(*r, pix_x, DBL) F(*r, pix_y, DBL)
        if (!strcmp(f, "img")) { *kind = STR; return r->img_base_name[i]; } if (!strcmp(f, "cal")) { *kind = STR; return r->cal_img_base_name[i]; }
        F(*r->mm, nlay, INT) F(*r->mm, n1, DBL) A(*r->mm, n2, DBL) A(*r->mm, d, DBL) F(*r->mm, n3, DBL) }
    if (!strcmp(t, "targpar")) { target_par *r = &a->tp; F(*r, discont, INT) A(*r, gvthres, INT) F(*r, nnmin, INT) F(*r, nnmax, INT) F(*r, nxmin, INT) F(*r, nxmax, INT) F(*r, nymin, INT) F(*r, nymax, INT) F(*r, sumg_min, INT) F(*r, cr_sz, INT) }
    if (!strcmp(t, "media")) { mm_np *r = &a->mm; F(*r, nlay, INT) F(*r, n1, DBL) A(*r, n2, DBL) A(*r, d, DBL) F(*r, n3, DBL) }
    fprintf(stderr, "no field %s.%s\n", t, f0); exit(3);
}
static void change(void *p, int kind) {
    if (kind == INT) { int *i = p; int o = *i; switch (rndi(5)) { case 0: *i ^= 1; break; case 1: *i = (int)((unsigned)o + 65536u); break; case 2: *i = (int)((unsigned)o + 256u); break; case 3: *i = -o; break; default: *i = iv(); } if (*i == o) *i ^= 1; }
    if (kind == DBL) { double *d = p, o = *d; switch (rndi(5)) { case 0: *d = nextafter(o, 1e9); break; case 1: *d = -o; break; case 2: *d = o + 1; break; case 3: *d = (float)o; break; default: *d = dv(); } if (*d == o) *d = o + 1; }
    if (kind == FLT) { float *d = p, o = *d; switch (rndi(4)) { case 0: *d = nextafterf(o, 1e9); break; case 1: *d = -o; break; case 2: *d = o + 1; break; default: *d = dv(); } if (*d == o) *d = o * 2 + 1; }
    if (kind == STR) { char *s = p; int n = strlen(s); switch (rndi(5)) { case 0: s[rndi(n)] ^= 1; break; case 1: s[n - 1] ^= 1; break; case 2: s[n] = 'x'; s[n + 1] = 0; break; case 3: s[n - 1] = 0; break; default: s[0] -= 32; } }
}

int main(void) {
    char type[64];
    while (rcmd(type)) {
        int seed = ri(), n = ri(), i, kind, cams = CAMS, ab, ba, aa, bb, same; char names[2][32]; all a, b, ka, kb;
        rng_seed(seed); memset(&a, 0, sizeof a);
        for (i = 0; i < n; i++) { strcpy(names[i], rs()); if (!strcmp(names[i], "num_cams")) cams = CAMS + (rndi(2) ? 1 : -1); }
        fill(&a); copy(&b, &a, cams);
        for (i = 0; i < n; i++) if (strcmp(names[i], "num_cams") && !(cams < CAMS && (strstr(names[i], ".3") && (strstr(names[i], "img") || strstr(names[i], "cal"))))) { void *w = field(type, &b, names[i], &kind); change(w, kind); }
        ka = a; kb = b;
        ab = cmp(type, &a, &b); ba = cmp(type, &b, &a); aa = cmp(type, &a, &a); { all c; copy(&c, &b, cams); bb = cmp(type, &b, &c); release(&c); }
        same = !memcmp(&a, &ka, sizeof a) && !memcmp(&b, &kb, sizeof b);
        begin(); P("{\"type\":\"%s\",\"diff\":[", type); for (i = 0; i < n; i++) P("%s\"%s\"", i ? "," : "", names[i]);
        P("],\"ab\":%d,\"ba\":%d,\"aa\":%d,\"bb\":%d,\"same\":%d,\"py\":0}", ab, ba, aa, bb, same); end();
        release(&a); release(&b);
    }
    return 0;
}
