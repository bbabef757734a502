/* C03-C07: tracking runs on frames supplied through the frame-source interface.
 *  run  kind imx imy ncams cam.. dv[6] dacc dang add zlo zhi stale first last  nghosts (x y z).. nframes frame..
 *  frame: nparts (x y z prev next p[ncams]).. then per camera: ntargets (x y owner ghost)..
 *  lengths in half mm and half pixels, limits in 1/100 mm, um, 1/1000 gon; frames are first, first + 1, ...
 */
#include "hcommon.h"
#include "hscene.h"
#include "track.h"
#include "tracking_run.h"
#define FAR_ 1e7
typedef struct { int n, *x, *prev, *next, *p, *nt, **t; } src;
static src *frames; static int nframes, first_, ncams, *reads, nreads, nout, unit_shift;
static char *out_txt; static size_t out_sz; static FILE *outf;
static double pos_noise[3];

static int u_[4][3] = {{5,0,0},{4,0,-3},{5,0,0},{4,0,3}}, v_[4][3] = {{0,-5,0},{0,-5,0},{0,-4,3},{0,-5,0}};
static Calibration *far_cam(int k) {
    double d[4][3] = {{0,0,1},{.6,0,.8},{0,.6,.8},{-.6,0,.8}};
    return look_at_origin(FAR_ * d[k][0], FAR_ * d[k][1], FAR_ * d[k][2], FAR_ * 0.05, 0);
}
static void read_frame_in(src *f) {
    int i, k, c;
    f->n = ri(); f->x = calloc(3 * f->n + 1, sizeof(int)); f->prev = calloc(f->n + 1, sizeof(int)); f->next = calloc(f->n + 1, sizeof(int));
    f->p = calloc(4 * f->n + 1, sizeof(int)); f->nt = calloc(4, sizeof(int)); f->t = calloc(4, sizeof(int *));
    for (i = 0; i < f->n; i++) {
        for (k = 0; k < 3; k++) f->x[3 * i + k] = ri();
        f->prev[i] = ri(); f->next[i] = ri();
        for (c = 0; c < ncams; c++) f->p[4 * i + c] = ri();
    }
    for (c = 0; c < ncams; c++) {
        f->nt[c] = ri(); f->t[c] = calloc(4 * f->nt[c] + 1, sizeof(int));
        for (i = 0; i < 4 * f->nt[c]; i++) f->t[c][i] = ri();
    }
}
static void echo_frame(src *f) {
    int i, c;
    P("{\"x\":["); for (i = 0; i < f->n; i++) P("%s[%d,%d,%d]", i ? "," : "", f->x[3*i], f->x[3*i+1], f->x[3*i+2]);
    P("],"); PI_("prev", f->prev, f->n); P(","); PI_("next", f->next, f->n);
    P(",\"corr\":["); for (i = 0; i < f->n; i++) { P("%s[", i ? "," : ""); for (c = 0; c < ncams; c++) P("%s%d", c ? "," : "", f->p[4*i+c]); P("]"); }
    P("],\"tg\":["); for (c = 0; c < ncams; c++) { P("%s[", c ? "," : "");
        for (i = 0; i < f->nt[c]; i++) P("%s[%d,%d,%d,%d]", i ? "," : "", f->t[c][4*i], f->t[c][4*i+1], f->t[c][4*i+2], f->t[c][4*i+3]); P("]"); }
    P("]}");
}
static int my_read(framebuf_base *self, int n, int links) {
    frame *d = self->buf[self->buf_len - 1]; src *f; int i, k, c;
    reads[nreads++] = n;
    if (n < first_ || n >= first_ + nframes) { d->num_parts = 0; for (c = 0; c < ncams; c++) d->num_targets[c] = 0; return 0; }
    f = frames + n - first_;
    d->num_parts = f->n;
    for (i = 0; i < f->n; i++) {
        struct Pstruct *p = d->path_info + i;
        for (k = 0; k < 3; k++) p->x[k] = f->x[3*i+k] / 2.;
        p->prev = links ? f->prev[i] : -1; p->next = links ? f->next[i] : -2; p->prio = 4;
        p->inlist = 0; p->finaldecis = 1000000.;
        for (k = 0; k < POSI; k++) { p->decis[k] = 0; p->linkdecis[k] = -999; }
        d->correspond[i].nr = i + 1;
        for (c = 0; c < 4; c++) d->correspond[i].p[c] = c < ncams ? f->p[4*i+c] : -1;
    }
    for (c = 0; c < ncams; c++) {
        d->num_targets[c] = f->nt[c];
        for (i = 0; i < f->nt[c]; i++) {
            int *t = f->t[c] + 4 * i;
            target tt = {i, t[0] / 2., t[1] / 2., 5, 3, 3, 100, t[2]}; d->targets[c][i] = tt;
        }
    }
    return 1;
}
static int my_write(framebuf_base *self, int n) {
    frame *d = self->buf[0]; int i, c; FILE *keep = OUT_;
    OUT_ = outf;
    P("%s{\"n\":%d,\"x\":[", nout++ ? "," : "", n);
    for (i = 0; i < d->num_parts; i++) P("%s[%d,%d,%d]", i ? "," : "", q(d->path_info[i].x[0], 1000), q(d->path_info[i].x[1], 1000), q(d->path_info[i].x[2], 1000));
    P("],\"prev\":["); for (i = 0; i < d->num_parts; i++) P("%s%d", i ? "," : "", d->path_info[i].prev);
    P("],\"next\":["); for (i = 0; i < d->num_parts; i++) P("%s%d", i ? "," : "", d->path_info[i].next);
    P("],\"corr\":["); for (i = 0; i < d->num_parts; i++) { P("%s[", i ? "," : ""); for (c = 0; c < ncams; c++) P("%s%d", c ? "," : "", d->correspond[i].p[c]); P("]"); }
    P("],\"own\":["); for (c = 0; c < ncams; c++) { P("%s[", c ? "," : ""); for (i = 0; i < d->num_targets[c]; i++) P("%s%d", i ? "," : "", d->targets[c][i].tnr); P("]"); }
    P("]}");
    OUT_ = keep;
    return 1;
}
static int projections_ok(control_par *cp, Calibration **cal, int *cams) {
    int c, k; vec3d x; double px, py;
    for (c = 0; c < ncams; c++) for (k = 0; k < 27; k++) {
        x[0] = 7 * (k % 3 - 1); x[1] = 5 * (k / 3 % 3 - 1); x[2] = 4 * (k / 9 - 1);
        img_coord(x, cal[c], cp->mm, &px, &py); metric_to_pixel(&px, &py, px, py, cp);
        if (fabs(px - cp->imx / 2. - (u_[cams[c]][0]*x[0] + u_[cams[c]][1]*x[1] + u_[cams[c]][2]*x[2])) > 2e-3) return 0;
        if (fabs(py - cp->imy / 2. - (v_[cams[c]][0]*x[0] + v_[cams[c]][1]*x[1] + v_[cams[c]][2]*x[2])) > 2e-3) return 0;
    }
    return 1;
}
static void run(void) {
    char kind = rs()[0]; int imx = ri(), imy = ri(), cams[4], i, c, dv[6], dacc, dang, add, zlo, zhi, stale, last, ng, *gh, s;
    Calibration *cal[4]; control_par *cp; sequence_par *sp; tracking_run *tr;
    track_par *tp = calloc(1, sizeof *tp); volume_par *vp = calloc(1, sizeof *vp);
    ncams = ri(); for (c = 0; c < ncams; c++) cams[c] = ri();
    for (i = 0; i < 6; i++) dv[i] = ri();
    dacc = ri(); dang = ri(); add = ri(); zlo = ri(); zhi = ri(); stale = ri(); first_ = ri(); last = ri();
    ng = ri(); gh = calloc(3 * ng + 1, sizeof(int)); for (i = 0; i < 3 * ng; i++) gh[i] = ri();
    nframes = ri(); frames = calloc(nframes, sizeof(src));
    for (i = 0; i < nframes; i++) read_frame_in(frames + i);
    cp = make_cpar(ncams, imx, imy, 0.01, 0.01, 1, 1); cp->mm->n3 = 1;
    for (c = 0; c < ncams; c++) cal[c] = far_cam(cams[c]);
    tp->dvxmin = dv[0] / 100.; tp->dvxmax = dv[1] / 100.; tp->dvymin = dv[2] / 100.; tp->dvymax = dv[3] / 100.;
    tp->dvzmin = dv[4] / 100.; tp->dvzmax = dv[5] / 100.; tp->dacc = dacc / 1000.; tp->dangle = dang / 1000.; tp->add = add;
    vp->X_lay[0] = -1000; vp->X_lay[1] = 1000; vp->Zmin_lay[0] = vp->Zmin_lay[1] = zlo / 2.; vp->Zmax_lay[0] = vp->Zmax_lay[1] = zhi / 2.;
    sp = new_sequence_par(ncams); sp->first = first_; sp->last = last;
    for (c = 0; c < ncams; c++) sprintf(sp->img_base_name[c], "nowhere%d.", c);
    begin();
    P("{\"kind\":\"%c\",\"stale\":%d,\"first\":%d,\"last\":%d,\"calok\":%d,", kind, stale, first_, last, projections_ok(cp, cal, cams));
    P("\"g\":{\"imx\":%d,\"imy\":%d,\"cams\":[", imx, imy);
    for (c = 0; c < ncams; c++) { P("%s{", c ? "," : ""); PI_("u", u_[cams[c]], 3); P(","); PI_("v", v_[cams[c]], 3); P("}"); }
    P("],"); PI_("dv", dv, 6); P(",\"dacc\":%d,\"dang\":%d,\"add\":%d,\"zlo\":%d,\"zhi\":%d,\"ghosts\":[", dacc, dang, add, zlo, zhi);
    for (i = 0; i < ng; i++) P("%s[%d,%d,%d]", i ? "," : "", gh[3*i], gh[3*i+1], gh[3*i+2]);
    P("]},\"frames\":["); for (i = 0; i < nframes; i++) { P("%s", i ? "," : ""); echo_frame(frames + i); }
    P("],");
    reads = calloc(10000, sizeof(int)); nreads = nout = 0;
    outf = open_memstream(&out_txt, &out_sz);
    tr = tr_new(sp, tp, vp, cp, 4, 200, "no", "no", "no", cal, 0.0001);
    tr->fb->_vptr->read_frame_at_end = my_read; tr->fb->_vptr->write_frame_from_start = my_write;
    if (kind == 'f') {
        track_forward_start(tr);
        for (s = first_; s < last; s++) trackcorr_c_loop(tr, s);
        trackcorr_c_finish(tr, last);
    } else trackback_c(tr);
    fclose(outf);
    PI_("reads", reads, nreads); P(",\"nlinks\":%d,\"npart\":%d", tr->nlinks, tr->npart);
    P(",\"out\":[%s]}", out_txt);
    end();
    free(out_txt); free(reads);
}
int main(void) { char cmd[64]; while (rcmd(cmd)) { if (!strcmp(cmd, "run")) run(); else return 3; } return 0; }
