/* C04, C07: forward and backward runs on random scenes with real cameras, keeping only the links and references.
 *  turn p0 p1 p2 p3   the cameras of the next run in another order (answers are given in the original order)
 *  run seed ncams nframes nparts add refract distort spread(1/100 mm) limit(1/100 mm) drop(%) noise first
 */
#include "hcommon.h"
#include "hscene.h"
#include "track.h"
#include "tracking_run.h"
#define MAXP 400
typedef struct { int n, n0, nt[4]; struct Pstruct p[MAXP]; corres c[MAXP]; target t[4][MAXP]; } store;
static store *now, *orig, *mid; static int first_, nframes, ncams, stage; static double zlo, zhi;
static int slot[4] = {0,1,2,3};      /* camera c sits in slot[c] */
static char *txt[2]; static size_t sz[2]; static FILE *file[2];

static int by_y(const void *a, const void *b) { double d = ((target *)a)->y - ((target *)b)->y; return d < 0 ? -1 : d > 0; }
static int my_read(framebuf_base *self, int n, int links) {
    frame *d = self->buf[self->buf_len - 1]; store *s; int i, c;
    d->num_parts = 0; for (c = 0; c < ncams; c++) d->num_targets[c] = 0;
    if (n < first_ || n >= first_ + nframes) return 0;
    s = now + n - first_;
    d->num_parts = s->n;
    for (i = 0; i < s->n; i++) {
        d->path_info[i] = s->p[i]; d->correspond[i] = s->c[i];
        if (!links) { d->path_info[i].prev = -1; d->path_info[i].next = -2; }
        d->path_info[i].inlist = 0; d->path_info[i].finaldecis = 1000000.;
    }
    for (c = 0; c < ncams; c++) { d->num_targets[c] = s->nt[c]; memcpy(d->targets[c], s->t[c], s->nt[c] * sizeof(target)); }
    return 1;
}
static void refs(frame *d) {
    int i, c, k;
    P("\"corr\":["); for (i = 0; i < d->num_parts; i++) { P("%s[", i ? "," : ""); for (c = 0; c < ncams; c++) P("%s%d", c ? "," : "", d->correspond[i].p[slot[c]]); P("]"); }
    P("],\"own\":["); for (c = 0; c < ncams; c++) { k = slot[c]; P("%s[", c ? "," : ""); for (i = 0; i < d->num_targets[k]; i++) P("%s%d", i ? "," : "", d->targets[k][i].tnr); P("]"); }
    P("]");
}
static void links(frame *d) {
    int i;
    P("\"prev\":["); for (i = 0; i < d->num_parts; i++) P("%s%d", i ? "," : "", d->path_info[i].prev);
    P("],\"next\":["); for (i = 0; i < d->num_parts; i++) P("%s%d", i ? "," : "", d->path_info[i].next);
    P("],");
}
static void show(frame *d, store *o, int cands) {
    int i, k, moved = 0, out = 0;
    P("{"); links(d);
    if (cands) {
        P("\"id\":["); for (i = 0; i < d->num_parts; i++) { P("%s[", i ? "," : ""); for (k = 0; k < d->path_info[i].inlist; k++) P("%s%d", k ? "," : "", d->path_info[i].linkdecis[k]); P("]"); }
        P("],\"v\":["); for (i = 0; i < d->num_parts; i++) { P("%s[", i ? "," : ""); for (k = 0; k < d->path_info[i].inlist; k++) {
            float f = d->path_info[i].decis[k]; int b; memcpy(&b, &f, 4); P("%s%d", k ? "," : "", f < 0 || isnan(f) ? -1 : b); } P("]"); }
        P("],");
    }
    if (o) {
        for (i = 0; i < o->n && i < d->num_parts; i++) for (k = 0; k < 3; k++) if (d->path_info[i].x[k] != o->p[i].x[k]) moved++;
        for (; i < d->num_parts; i++) if (!(d->path_info[i].x[2] > zlo - 1e-6 && d->path_info[i].x[2] < zhi + 1e-6)) out++;
        P("\"moved\":%d,\"outside\":%d,", moved, out);
    }
    refs(d); P("}");
}
/* in every camera, targets of different particles in frames close in time are far apart (in pixels) */
static int sparse(double far) {
    int f, g, c, i, j;
    for (f = 0; f < nframes; f++) for (g = f; g < nframes && g < f + 4; g++) for (c = 0; c < ncams; c++)
        for (i = 0; i < orig[f].nt[c]; i++) for (j = 0; j < orig[g].nt[c]; j++) {
            target *a = orig[f].t[c] + i, *b = orig[g].t[c] + j;
            if (a->sumg != b->sumg && fabs(a->x - b->x) < far && fabs(a->y - b->y) < far) return 0;
        }
    return 1;
}
static int nout[2];
static int my_write(framebuf_base *self, int n) {
    frame *d = self->buf[0]; int c; FILE *keep = OUT_; store *s = now + n - first_;
    if (n < first_ || n >= first_ + nframes || d->num_parts > MAXP) { fprintf(stderr, "stored frame %d of %d particles\n", n, d->num_parts); abort(); }
    if (stage == 0) { OUT_ = file[0]; P("%s", nout[0]++ ? "," : ""); show(d, orig + n - first_, 1); OUT_ = keep; }
    s->n = d->num_parts; memcpy(s->p, d->path_info, s->n * sizeof(struct Pstruct)); memcpy(s->c, d->correspond, s->n * sizeof(corres));
    for (c = 0; c < ncams; c++) { s->nt[c] = d->num_targets[c]; memcpy(s->t[c], d->targets[c], s->nt[c] * sizeof(target)); }
    return 1;
}
static tracking_run *fresh(sequence_par *sp, track_par *tp, volume_par *vp, control_par *cp, Calibration **cal) {
    tracking_run *tr = tr_new(sp, tp, vp, cp, 4, MAXP, "no", "no", "no", cal, 0.0001);
    tr->fb->_vptr->read_frame_at_end = my_read; tr->fb->_vptr->write_frame_from_start = my_write;
    return tr;
}
static void run(void) {
    int np, add, refract, distort, noise, i, k, c, f, s; double spread, limit, drop;
    double at[200][3], v[200][3]; Calibration *cal[4]; control_par *cp; sequence_par *sp; tracking_run *tr;
    track_par *tp = calloc(1, sizeof *tp); volume_par *vp = calloc(1, sizeof *vp); frame tmp;
    rng_seed(ri()); ncams = ri(); nframes = ri(); np = ri(); add = ri(); refract = ri(); distort = ri();
    spread = ri() / 100.; limit = ri() / 100.; drop = ri() / 100.; noise = ri(); first_ = ri();
    cp = make_cpar(ncams, 1280, 1024, 0.01, 0.01, refract ? 1.46 : 1, refract ? 5 : 1);
    for (c = 0; c < ncams; c++) {
        double pl[4][3] = {{-120,-90,400},{120,-100,410},{-110,110,420},{130,95,430}};
        Calibration *w = cal[slot[c]] = look_at_origin(pl[c][0], pl[c][1], pl[c][2], 60, 0.01 * c);
        w->glass_par.vec_x = w->glass_par.vec_y = 0.0001; w->glass_par.vec_z = 100;
        if (distort) { w->added_par.k1 = 1e-4; w->int_par.xh = 0.1; }
    }
    tp->dvxmin = tp->dvymin = tp->dvzmin = -limit; tp->dvxmax = tp->dvymax = tp->dvzmax = limit;
    tp->dacc = limit * (0.2 + rnd()); tp->dangle = 20 + 150 * rnd(); tp->add = add;
    zlo = -spread * (0.3 + rnd()); zhi = spread * (0.3 + rnd());
    vp->X_lay[0] = -spread; vp->X_lay[1] = spread; vp->Zmin_lay[0] = vp->Zmin_lay[1] = zlo; vp->Zmax_lay[0] = vp->Zmax_lay[1] = zhi;
    sp = new_sequence_par(ncams); sp->first = first_; sp->last = first_ + nframes - 1;
    for (c = 0; c < ncams; c++) sprintf(sp->img_base_name[c], "nowhere%d.", c);
    for (i = 0; i < np; i++) for (k = 0; k < 3; k++) { at[i][k] = spread * (2 * rnd() - 1); v[i][k] = limit * (2 * rnd() - 1); }
    now = calloc(nframes, sizeof(store)); orig = calloc(nframes, sizeof(store));
    for (f = 0; f < nframes; f++) {
        store *o = now + f; int nn = 0;
        for (i = 0; i < np; i++) {
            int lost = rnd() < drop, me = -1;
            if (rnd() < 0.03) for (k = 0; k < 3; k++) { at[i][k] = spread * (2 * rnd() - 1); v[i][k] = limit * (2 * rnd() - 1); }
            if (!lost) { me = nn++; memset(o->p + me, 0, sizeof(struct Pstruct)); memcpy(o->p[me].x, at[i], sizeof at[i]); o->p[me].prev = -1; o->p[me].next = -2; o->p[me].prio = 4;
                o->c[me].nr = nn; for (c = 0; c < 4; c++) o->c[me].p[c] = -1; }
            for (s = 0; s < ncams; s++) if (c = slot[s], rnd() < 0.95) {
                double x, y; img_coord(at[i], cal[c], cp->mm, &x, &y); metric_to_pixel(&x, &y, x, y, cp);
                target t = {0, x + 0.2 * rnd(), y + 0.2 * rnd(), 9, 3, 3, 500 + i, me}; o->t[c][o->nt[c]++] = t;
            }
            for (k = 0; k < 3; k++) { at[i][k] += v[i][k]; v[i][k] += 0.3 * limit * (2 * rnd() - 1); }
        }
        o->n = nn;
        for (s = 0; s < ncams; s++) {
            c = slot[s];
            for (i = 0; i < noise; i++) { target t = {0, 1280 * rnd(), 1024 * rnd(), 9, 3, 3, 500, -1}; o->t[c][o->nt[c]++] = t; }
            qsort(o->t[c], o->nt[c], sizeof(target), by_y);
            for (i = 0; i < o->nt[c]; i++) { o->t[c][i].pnr = i; if (o->t[c][i].tnr >= 0) o->c[o->t[c][i].tnr].p[c] = i; }
        }
    }
    memcpy(orig, now, nframes * sizeof(store));
    begin();
    P("{\"add\":%d,\"sparse\":%d,\"in\":[", add, sparse(130 * limit));
    memset(&tmp, 0, sizeof tmp);
    for (f = 0; f < nframes; f++) {
        target *tt[4]; int nt[4];
        for (c = 0; c < 4; c++) { tt[c] = orig[f].t[c]; nt[c] = orig[f].nt[c]; }
        tmp.num_parts = orig[f].n; tmp.correspond = orig[f].c; tmp.path_info = orig[f].p; tmp.targets = tt; tmp.num_targets = nt;
        P("%s{", f ? "," : ""); refs(&tmp); P("}");
    }
    P("],\"fw\":[");
    file[0] = open_memstream(txt, sz); nout[0] = 0; stage = 0;
    tr = fresh(sp, tp, vp, cp, cal);
    track_forward_start(tr);
    for (s = sp->first; s < sp->last; s++) trackcorr_c_loop(tr, s);
    trackcorr_c_finish(tr, sp->last);
    fclose(file[0]); P("%s]", txt[0]); free(txt[0]);
    P(",\"bw\":[");
    mid = calloc(nframes, sizeof(store)); memcpy(mid, now, nframes * sizeof(store));
    stage = 1; tr = fresh(sp, tp, vp, cp, cal);
    trackback_c(tr);
    for (f = 0; f < nframes; f++) {
        target *tt[4]; int nt[4];
        for (c = 0; c < 4; c++) { tt[c] = now[f].t[c]; nt[c] = now[f].nt[c]; }
        tmp.num_parts = now[f].n; tmp.correspond = now[f].c; tmp.path_info = now[f].p; tmp.targets = tt; tmp.num_targets = nt;
        P("%s", f ? "," : ""); show(&tmp, mid + f, 0);
    }
    P("]}");
    end();
    free(now); free(orig); free(mid);
}
int main(void) { char cmd[64]; while (rcmd(cmd)) { int c; if (!strcmp(cmd, "run")) { run(); for (c = 0; c < 4; c++) slot[c] = c; }
    else if (!strcmp(cmd, "turn")) for (c = 0; c < 4; c++) slot[c] = ri(); else return 3; } return 0; }
