/* C27: what calls take and give back. Every allocation, release, fopen and fclose of the library goes through here.
 * Input: kind seed steps (op object ok)*.  A history is run twice and the second run is told, so that something
 * the library keeps once and for all is no loss. */
#include "hcommon.h"
#include "hscene.h"
#include "tracking_run.h"
#include "track.h"
#include "orientation.h"
#include "sortgrid.h"
#include "correspondences.h"
#include "segmentation.h"
#include "image_processing.h"
#include "multimed.h"
#include "epi.h"
#include <unistd.h>
#include <sys/stat.h>
/* ---- the ledger */
void *__real_malloc(size_t), *__real_calloc(size_t, size_t), *__real_realloc(void *, size_t); void __real_free(void *);
FILE *__real_fopen(const char *, const char *); int __real_fclose(FILE *);
static volatile int on; static int nid; static struct { void *p; int id; } tab[60000]; static int ntab;
static struct { int k, id; } ev[60000]; static int nev;
static void tell(int k, int id) { if (nev < 60000) { ev[nev].k = k; ev[nev++].id = id; } }
static void took(int k, void *p) { if (on && p) { tab[ntab].p = p; tab[ntab++].id = ++nid; tell(k, nid); } }
static void gave(int k, void *p) { int i; if (!on || !p) return;
    for (i = ntab - 1; i >= 0; i--) if (tab[i].p == p) { tell(k, tab[i].id); tab[i] = tab[--ntab]; return; }
    tell(k, 0); }
void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); took(1, p); return p; }
void *__wrap_calloc(size_t n, size_t m) { void *p = __real_calloc(n, m); took(1, p); return p; }
void *__wrap_realloc(void *o, size_t n) { void *p; gave(2, o); p = __real_realloc(o, n); took(1, p); return p; }
void __wrap_free(void *p) { gave(2, p); __real_free(p); }
FILE *__wrap_fopen(const char *n, const char *m) { FILE *f = __real_fopen(n, m); took(3, f); return f; }
int __wrap_fclose(FILE *f) { gave(4, f); return __real_fclose(f); }
/* ---- files, whole or spoilt */
static int spoil;
static void put(const char *name, const char *text) {
    FILE *f; char *t; int how = spoil ? rndi(4) : 3;
    unlink(name); if (how == 0) return;
    t = strdup(text);
    if (how == 1) t[rndi(strlen(t))] = 0;
    if (how == 2) { char *w = t + rndi(strlen(t)); if (*w > ' ') *w = 'x'; }
    f = __real_fopen(name, "w"); fputs(t, f); __real_fclose(f); __real_free(t);
}
#define SEQ "imga.\nimgb.\nimgc.\nimgd.\n1001\n1005\n"
#define CTL "2\nimga\ncala\nimgb\ncalb\n1\n0\n1\n640\n480\n0.01\n0.01\n0\n1\n1.33\n1.46\n5\n"
#define TRK "-2 2 -2 2 -2 2 100 1.5 1\n"
#define VOL "-30\n-30\n30\n30\n-20\n20\n0.3\n0.3\n0.01\n0.01\n33\n0.02\n"
#define TAR "10\n11\n12\n13\n5\n1\n100\n2\n50\n2\n51\n30\n3\n"
#define ORI "0\n1\n1\n1\n1\n0\n0\n0\n0\n0\n0\n0\n"
#define CAL "1.5 2.5 300.25\n0.1 0.05 -0.02\n\n1 0 0\n0 1 0\n0 0 1\n\n0.1 -0.2\n60\n\n0.0001 0.0001 20\n"
#define ADD "0.001 0 0 0.0002 0 1 0\n"
#define BLK "1 0 0 0\n2 10 0 0\n3 0 10 0\n4 0 0 10\n5 10 10 10\n"
#define MAN "1 2 3 4\n5 4 3 2\n"
/* ---- scenes */
static Calibration *C_[4], **CC; static control_par *CP; static volume_par VP; static track_par TP; static char *names[4] = {"imga.", "imgb.", "imgc.", "imgd."};
static void scene(int nc) {
    static double at[4][2] = {{-60, -50}, {60, -50}, {60, 50}, {-60, 50}}; int i;
    for (i = 0; i < 4; i++) C_[i] = look_at_origin(at[i][0], at[i][1], 400, 40, .02);
    CP = make_cpar(nc, 640, 480, .01, .01, 1.33, 5); CC = C_;
    VP.X_lay[0] = -40; VP.X_lay[1] = 40; VP.Zmin_lay[0] = VP.Zmin_lay[1] = -30; VP.Zmax_lay[0] = VP.Zmax_lay[1] = 0; VP.cnx = VP.cny = VP.cn = VP.csumg = .01; VP.corrmin = 5; VP.eps0 = .05;
    TP.dvxmin = TP.dvymin = TP.dvzmin = -3; TP.dvxmax = TP.dvymax = TP.dvzmax = 3; TP.dangle = 100; TP.dacc = 3; TP.add = 1;
}
static void unscene(void) { int i; for (i = 0; i < 4; i++) __real_free(C_[i]); free_control_par(CP); }
static void see(target *t, vec3d p, int cam, int pnr) { vec2d px; memset(t, 0, sizeof *t); point_to_pixel(px, p, C_[cam], CP); t->pnr = pnr; t->x = px[0]; t->y = px[1]; t->n = 9; t->nx = t->ny = 3; t->sumg = 200; t->tnr = -1; }
static void points(frame *fr, int n, double t) {      /* a frame of n particles */
    int i, c; fr->num_parts = n;
    for (c = 0; c < CP->num_cams; c++) fr->num_targets[c] = n;
    for (i = 0; i < n; i++) {
        vec_set(fr->path_info[i].x, 6 * i - 12 + t, 4 * (i % 3) + .5 * t, -5 - i); reset_links(&fr->path_info[i]); fr->correspond[i].nr = i + 1;
        for (c = 0; c < 4; c++) fr->correspond[i].p[c] = c < CP->num_cams ? i : -1;
        for (c = 0; c < CP->num_cams; c++) { see(&fr->targets[c][i], fr->path_info[i].x, c, i); fr->targets[c][i].tnr = i; }
    }
}
static void frames(int n) { frame fr; int f; frame_init(&fr, CP->num_cams, 30); for (f = 1001; f <= 1005; f++) { points(&fr, n, f - 1003); write_frame(&fr, "rt_is", "ptv_is", "added", names, f); } free_frame(&fr); }
/* take away or spoil one of the files of frame f */
static const char *spoilt(int f) { static char b[200]; const char *s[] = {"rt_is.%d", "ptv_is.%d", "added.%d", "imga.%d_targets", "imgb.%d_targets"}; FILE *h; int k = rndi(5);
    sprintf(b, s[k], f); if (k > 2) sprintf(b, "%s%04d_targets", k == 3 ? "imga." : "imgb.", f);
    if (rndi(2)) unlink(b); else { h = __real_fopen(b, "w"); fputs(rndi(2) ? "3\n 1 2 x" : "", h); __real_fclose(h); } return b; }
/* ---- objects */
static void *obj[3]; static int var[3]; static const char *what;
#define LED(x) (on = 1, (x), on = 0)
static int readers(int o) {      /* parameter records */
    void *p = 0;
    switch (var[o]) {
    case 0: put("f.par", SEQ); LED(p = read_sequence_par("f.par", 4)); what = "read_sequence_par"; break;
    case 1: put("f.par", CTL); LED(p = read_control_par("f.par")); what = "read_control_par"; break;
    case 2: put("f.par", TRK); LED(p = read_track_par("f.par")); what = "read_track_par"; break;
    case 3: put("f.par", VOL); LED(p = read_volume_par("f.par")); what = "read_volume_par"; break;
    case 4: put("f.par", TAR); LED(p = read_target_par("f.par")); what = "read_target_par"; break;
    case 5: put("f.par", ORI); LED(p = read_orient_par("f.par")); what = "read_orient_par"; break;
    case 6: { int n; put("f.par", BLK); LED(p = read_calblock(&n, "f.par")); what = "read_calblock"; break; }
    case 7: LED(p = new_sequence_par(1 + rndi(4))); what = "new_sequence_par"; break;
    case 8: LED(p = new_control_par(1 + rndi(4))); what = "new_control_par"; break;
    }
    obj[o] = p; return p != 0;
}
static int reader_use(int o) { int k = rndi(5), r = 0; vec3d f4[4];
    if (k == 0) { put("s.par", "25\n"); LED(r = read_sortgrid_par("s.par")); what = "read_sortgrid_par"; return r; }
    if (k == 1) { put("m.par", MAN); spoil = spoil && rndi(2); put("b.par", BLK); LED(r = read_man_ori_fix(f4, "b.par", "m.par", rndi(spoil ? 4 : 2))); what = "read_man_ori_fix"; return r; }
    if (k == 2) { target_par t; memset(&t, 0, sizeof t); LED((write_target_par(&t, spoil ? "nodir/x.par" : "t.par"), r = 1)); what = "write_target_par"; return r; }
    if (k == 3) { put("f.par", CTL); what = "compare"; LED((r = var[o] == 0 ? compare_sequence_par(obj[o], obj[o]) : var[o] == 1 ? compare_control_par(obj[o], obj[o]) : 1)); return r; }
    { Calibration c; memset(&c, 0, sizeof c); c.added_par.scx = 1; LED(r = write_calibration(&c, spoil && rndi(2) ? "nodir/c.ori" : "c.ori", spoil ? "nodir/c.add" : "c.add")); what = "write_calibration"; return r; }
}
static void reader_drop(int o) { what = "release"; if (var[o] == 0 || var[o] == 7) LED((free_sequence_par(obj[o]), 0)); else if (var[o] == 1 || var[o] == 8) LED((free_control_par(obj[o]), 0)); else LED((free(obj[o]), 0)); }

static int cal_make(int o) { Calibration *c; put("c.ori", CAL); spoil = spoil && rndi(2); put("c.add", ADD); put("d.add", ADD); LED(c = read_calibration("c.ori", "c.add", rndi(2) ? "d.add" : NULL)); what = "read_calibration"; obj[o] = c; return c != 0; }
static int cal_use(int o) { int r = 0; Calibration c = *(Calibration *)obj[o]; vec3d p = {1, 2, -10}; double x, y;
    if (rndi(2)) { put("c.ori", CAL); put("c.add", ADD); LED(r = read_ori(&c.ext_par, &c.int_par, &c.glass_par, "c.ori", &c.added_par, "c.add", NULL)); what = "read_ori"; }
    else { LED((img_coord(p, &c, CP->mm, &x, &y), r = 1)); what = "img_coord"; }
    return r; }
static void cal_fill(int o) { Calibration *c = obj[o]; what = "init_mmlut"; VP.X_lay[1] = 20 + rndi(20); LED((init_mmlut(&VP, CP, c), 0)); }
static void cal_drop(int o) { Calibration *c = obj[o]; what = "release"; LED((free(c->mmlut.data), free(c), 0)); }

static int frame_make(int o) { frame *f; what = "frame_init"; LED((f = malloc(sizeof *f), frame_init(f, CP->num_cams, 20), 0)); obj[o] = f; points(f, 3, 0); return 1; }
static int frame_use(int o) { frame *f = obj[o]; int r = 0; target t[20]; corres co[20]; P pa[20];
    switch (rndi(5)) {
    case 0: what = "write_frame"; LED(r = write_frame(f, spoil ? "nodir/rt" : "rt_is", spoil && rndi(2) ? "nodir/ptv" : "ptv_is", rndi(2) ? NULL : "added", names, 1001)); break;
    case 1: { char *a[3] = {"rt_is", "ptv_is", "added"}; if (spoil) a[rndi(3)] = "nodir/f"; what = "write_path_frame"; LED(r = write_path_frame(f->correspond, f->path_info, f->num_parts, a[0], a[1], a[2], 1002)); break; }
    case 2: what = "write_targets"; LED(r = write_targets(f->targets[0], 3, spoil ? "nodir/img." : "imga.", 1001)); break;
    case 3: frames(3); if (spoil) spoilt(1003); what = "read_path_frame"; LED(r = read_path_frame(co, pa, "rt_is", rndi(4) ? "ptv_is" : NULL, rndi(2) ? "added" : NULL, 1003) == 3); break;
    case 4: frames(3); if (spoil) spoilt(1003); what = "read_targets"; LED(r = read_targets(t, "imga.", 1003) == 3); break;
    } return r; }
static void frame_fill(int o) { frames(3); if (spoil) spoilt(1003); what = "read_frame"; LED(read_frame(obj[o], "rt_is", "ptv_is", rndi(2) ? "added" : NULL, names, 1003)); }
static void frame_drop(int o) { what = "free_frame"; LED((free_frame(obj[o]), free(obj[o]), 0)); }

static int fb_make(int o) { framebuf *b; what = "fb_init"; LED((b = malloc(sizeof *b), fb_init(b, 2 + rndi(3), CP->num_cams, 20, "rt_is", "ptv_is", "added", names), 0)); obj[o] = b; return 1; }
static int fb_use(int o) { framebuf_base *b = obj[o]; int r = 1, k; frames(3); for (k = 0; k < 3; k++) { if (spoil) spoilt(1002 + k); LED((fb_read_frame_at_end(b, 1002 + k, rndi(2)), fb_next(b), 0)); }
    what = "window"; LED((fb_prev(b), fb_write_frame_from_start(b, 1004), 0)); return r; }
static void fb_drop(int o) { what = "fb_free"; LED((fb_free(obj[o]), free(obj[o]), 0)); }

static int run_make(int o) { tracking_run *t; sequence_par *s; control_par *cp; track_par *tp; volume_par *vp; int i;
    if (var[o] % 2) { put("seq.par", SEQ); put("trk.par", TRK); put("vol.par", VOL); put("ctl.par", CTL); what = "tr_new_legacy"; LED(t = tr_new_legacy("seq.par", "trk.par", "vol.par", "ctl.par", CC)); }
    else { what = "tr_new"; on = 1; s = new_sequence_par(CP->num_cams); cp = new_control_par(CP->num_cams); tp = malloc(sizeof *tp); vp = malloc(sizeof *vp); on = 0;
        for (i = 0; i < CP->num_cams; i++) strcpy(s->img_base_name[i], names[i]); s->first = 1001; s->last = 1005; *tp = TP; *vp = VP; *cp->mm = *CP->mm; cp->imx = CP->imx; cp->imy = CP->imy; cp->pix_x = CP->pix_x; cp->pix_y = CP->pix_y;
        LED(t = tr_new(s, tp, vp, cp, 4, 50, "rt_is", "ptv_is", "added", CC, 10000)); }
    obj[o] = t; return 1; }
static int run_use(int o) { tracking_run *t = obj[o]; int s, keep = ((framebuf *)t->fb)->base.buf_len; (void)keep; if (var[o] % 2) return 1;
    frames(3 + rndi(4)); on = 1;
    if (rndi(3)) { what = "forward run"; track_forward_start(t); for (s = 1001; s < 1005; s++) trackcorr_c_loop(t, s); trackcorr_c_finish(t, 1005); }
    else { what = "backward run"; trackback_c(t); }
    on = 0; return 1; }
static void run_drop(int o) { what = "tr_free"; LED((tr_free(obj[o]), free(obj[o]), 0)); }

/* answers handed to the caller, and work that hands over nothing */
static int grid(vec3d *fix, target *pix, int spread) { int i, n = 0; for (i = 0; i < 27; i++) { vec_set(fix[n], 12 * (i % 3) - 12 + .3 * rnd(), 12 * (i / 3 % 3) - 12, -8 * (i / 9) - 3); see(&pix[n], fix[n], 0, n); pix[n].x += spread * (rnd() - .5); pix[n].y += spread * (rnd() - .5); n++; } return n; }
static int ans_make(int o) { void *r = 0; vec3d fix[27]; target pix[40]; int i, c, k, m[4], n = grid(fix, pix, 0); double sig[20]; orient_par fl; Calibration cal = *C_[0];
    switch (var[o] % 5) {
    case 0: { frame fr; coord_2d *co[4]; frame_init(&fr, CP->num_cams, 30); points(&fr, spoil ? rndi(2) : 1 + rndi(6), 0);
        for (c = 0; c < CP->num_cams; c++) { co[c] = __real_malloc(31 * sizeof(coord_2d)); for (i = 0; i < fr.num_targets[c]; i++) { double x, y; pixel_to_metric(&x, &y, fr.targets[c][i].x, fr.targets[c][i].y, CP); co[c][i].pnr = i; co[c][i].x = x; co[c][i].y = y; } quicksort_coord2d_x(co[c], fr.num_targets[c]); fr.targets[c][0].tnr = -1; }
        what = "correspondences"; LED(r = correspondences(&fr, co, &VP, CP, CC, m)); for (c = 0; c < CP->num_cams; c++) __real_free(co[c]); free_frame(&fr); break; }
    case 1: what = "sortgrid"; LED(r = sortgrid(C_[0], CP, n, fix, spoil ? 0 : n, 10, pix)); break;
    case 2: memset(&fl, 0, sizeof fl); fl.ccflag = rndi(2); fl.xhflag = rndi(2); fl.k1flag = rndi(2); fl.useflag = rndi(3);
        if (spoil) { k = rndi(3); if (k == 0) for (i = 0; i < n; i++) pix[i].pnr = -999; else if (k == 1) n = 2; else for (i = 0; i < n; i++) { pix[i].x = 600 * rnd(); pix[i].y = 400 * rnd(); } }
        cal.ext_par.x0 += .3; cal.ext_par.kappa += .003; rotation_matrix(&cal.ext_par); what = "orient"; LED(r = orient(&cal, CP, n, fix, pix, &fl, sig)); break;
    case 3: what = "usage marks"; LED(r = safely_allocate_target_usage_marks(CP->num_cams)); break;
    case 4: { int cnt[4] = {3, 0, 5, 1}; correspond *(*l)[4] = __real_calloc(16, sizeof(correspond *)); what = "adjacency lists"; LED(safely_allocate_adjacency_lists(l, CP->num_cams, cnt)); r = l; break; }
    } obj[o] = r; return r != 0; }
static void ans_drop(int o) { what = "release"; if (var[o] % 5 == 3) LED((deallocate_target_usage_marks(obj[o], CP->num_cams), 0)); else if (var[o] % 5 == 4) { LED((deallocate_adjacency_lists(obj[o], CP->num_cams), 0)); __real_free(obj[o]); } else LED((free(obj[o]), 0)); }
static int ans_use(int o) { vec3d fix[27], X; target pix[40]; int i, c, k, r = 1, n = grid(fix, pix, 0); Calibration cal = *C_[0]; vec2d v[4], *vp[3]; double e[6]; unsigned char *im, *hp; target_par tp;
    switch (rndi(7)) {
    case 0: if (spoil) for (i = 0; i < 4; i++) { pix[i].x = 600 * rnd(); pix[i].y = 400 * rnd(); } cal.ext_par.x0 += 5; what = "raw_orient"; LED(r = raw_orient(&cal, CP, spoil ? rndi(5) : 4, fix, pix)); break;
    case 1: for (c = 0; c < 4; c++) { v[c][0] = rnd(); v[c][1] = spoil && c < 3 ? PT_UNUSED : rnd(); if (v[c][1] == PT_UNUSED) v[c][0] = PT_UNUSED; } what = "point_position"; LED((point_position(v, CP->num_cams, CP->mm, CC, X), 0)); break;
    case 2: vp[0] = vp[1] = v; for (c = 0; c < 4; c++) v[c][0] = v[c][1] = rnd(); what = "weighted_dumbbell_precision"; LED((weighted_dumbbell_precision(vp, 2, CP->num_cams, CP->mm, CC, 5, 1), 0)); break;
    case 3: what = "volumedimension"; LED((volumedimension(e, e + 1, e + 2, e + 3, e + 4, e + 5, &VP, CP, CC), 0)); break;
    default: im = __real_calloc(640 * 480, 1); hp = __real_calloc(640 * 480, 1); for (i = 0; i < 640 * 480; i += 1 + rndi(9)) im[i] = rndi(256); memset(&tp, 0, sizeof tp); for (i = 0; i < 4; i++) tp.gvthres[i] = 100; tp.discont = 20; tp.nnmin = tp.nxmin = tp.nymin = 0; tp.nnmax = tp.nxmax = tp.nymax = 30;
        k = rndi(3); { target *many = __real_calloc(640 * 480 / 2, sizeof *many);
        CP->imx = 20 + rndi(20); CP->imy = 20 + rndi(20);
        if (k == 0) { what = "targ_rec"; LED(r = targ_rec(im, &tp, 0, CP->imx, 1, CP->imy, CP, 0, many)); }
        else if (k == 1) { what = "peak_fit"; LED(r = peak_fit(im, &tp, 0, CP->imx, 1, CP->imy, CP, 0, many)); }
        else { put("filt.par", "0.1 0.1 0.1 0.1 0.2 0.1 0.1 0.1 0.1\n"); i = rndi(3); what = "prepare_image"; LED(r = prepare_image(im, hp, 1 + rndi(2), i, "filt.par", CP)); }
        CP->imx = 640; CP->imy = 480; __real_free(many); } __real_free(im); __real_free(hp); break;
    } return r; }

static struct { int (*make)(int), (*use)(int); void (*fill)(int), (*drop)(int); int vars; } kinds[] = {
    {readers, reader_use, 0, reader_drop, 9}, {cal_make, cal_use, cal_fill, cal_drop, 1}, {frame_make, frame_use, frame_fill, frame_drop, 1},
    {fb_make, fb_use, 0, fb_drop, 1}, {run_make, run_use, 0, run_drop, 8}, {ans_make, ans_use, 0, ans_drop, 5}};
static int first_;
static void step(int told, const char *op, int o, int ok) { int i; if (!told) { nev = 0; return; }
    P("%s{\"op\":\"%s\",\"what\":\"%s\",\"o\":%d,\"ok\":%d,\"ev\":[", first_ ? "" : ",", op, what, o, !!ok); for (i = 0; i < nev; i++) P("%s[%d,%d]", i ? "," : "", ev[i].k, ev[i].id); P("]}"); first_ = 0; nev = 0; }
int main(void) {
    char op[64]; int i;
    while (rcmd(op)) {
        int kind = ri(), seed = ri(), n = ri(), rep, h[64][3];
        for (i = 0; i < n; i++) { h[i][0] = ri(); h[i][1] = ri(); h[i][2] = ri(); }
        begin(); P("{\"kind\":%d,\"seed\":%d,\"objs\":2,\"steps\":[", kind, seed);
        for (rep = 0; rep < 2; rep++) {
            rng_seed(seed); for (i = 0; i < 20; i++) rnd();
            scene(2 + rndi(3)); ntab = nid = nev = 0; first_ = 1; obj[1] = obj[2] = 0;
            for (i = 0; i <= n + 1; i++) {
                int o = i < n ? h[i][1] : i - n + 1, k = i < n ? h[i][0] : 3, r;
                if (!obj[o] != (k == 0)) continue;
                spoil = i < n && !h[i][2];
                if (k == 0) { var[o] = rndi(kinds[kind].vars); if (kind == 4) var[o] = !rndi(12); r = kinds[kind].make(o); step(rep, "make", o, r); }
                else if (k == 3) { kinds[kind].drop(o); obj[o] = 0; step(rep, "drop", o, 1); }
                else if (k == 2 && kinds[kind].fill) { kinds[kind].fill(o); step(rep, "refill", o, 1); }
                else { r = kinds[kind].use(o); step(rep, "use", o, r); }
            }
            unscene();
        }
        P("]}"); end();
    }
    return 0;
}
