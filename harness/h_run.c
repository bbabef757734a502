/* C03: which frames a tracking run loads, sees and stores, for histories of operations on one tracking object.
 *  hist first last nops op..      op: r restart, s step, f finish, F whole forward run, B whole backward run
 * A frame holds one particle whose x is the frame's number.
 */
#include "hcommon.h"
#include "hscene.h"
#include "track.h"
#include "tracking_run.h"
static int nev;
static void ev(const char *k, int n) { P("%s[\"%s\",%d]", nev++ ? "," : "", k, n); }
static int id(frame *f) { return f->num_parts == 1 ? (int) f->path_info[0].x[0] : f->num_parts == 0 ? 0 : -1; }
static void see(framebuf_base *fb, int shifted) {
    int k;
    P("%s[\"see\",[", nev++ ? "," : "");
    for (k = 0; k < 4; k++) P("%s%d", k ? "," : "", id(fb->buf[(k + 4 - shifted) % 4]));
    P("]]");
}
static int first_, last_, backward;
static int my_read(framebuf_base *self, int n, int links) {
    frame *d = self->buf[3]; int i;
    ev("load", n);
    d->num_parts = 1; d->num_targets[0] = d->num_targets[1] = 0;
    memset(d->path_info, 0, sizeof(struct Pstruct));
    d->path_info[0].x[0] = n; d->path_info[0].prev = links ? -1 : -1; d->path_info[0].next = -2; d->path_info[0].prio = 4;
    d->correspond[0].nr = 1; for (i = 0; i < 4; i++) d->correspond[0].p[i] = -1;
    return 1;
}
static int my_write(framebuf_base *self, int n) {
    if (backward && n > first_) see(self, 1);    /* the window before the shift that precedes storing */
    ev("store", id(self->buf[0]) == n ? n : -n);
    return 1;
}
static void hist(void) {
    int n, i, step = 0; char ops[64]; Calibration *cal[2]; control_par *cp; sequence_par *sp; tracking_run *tr;
    track_par *tp = calloc(1, sizeof *tp); volume_par *vp = calloc(1, sizeof *vp);
    first_ = ri(); last_ = ri(); n = ri();
    for (i = 0; i < n; i++) ops[i] = rs()[0];
    cp = make_cpar(2, 400, 400, 0.01, 0.01, 1, 1);
    cal[0] = look_at_origin(100, 20, 400, 40, 0); cal[1] = look_at_origin(-100, 20, 400, 40, 0);
    tp->dvxmin = tp->dvymin = tp->dvzmin = -1; tp->dvxmax = tp->dvymax = tp->dvzmax = 1; tp->dacc = 1; tp->dangle = 100;
    sp = new_sequence_par(2); sp->first = first_; sp->last = last_;
    strcpy(sp->img_base_name[0], "x"); strcpy(sp->img_base_name[1], "y");
    tr = tr_new(sp, tp, vp, cp, 4, 20, "no", "no", "no", cal, 0.0001);
    tr->fb->_vptr->read_frame_at_end = my_read; tr->fb->_vptr->write_frame_from_start = my_write;
    begin();
    P("{\"first\":%d,\"last\":%d,\"ops\":[", first_, last_);
    for (i = 0; i < n; i++) P("%s\"%c\"", i ? "," : "", ops[i]);
    P("],\"ev\":[");
    for (i = 0; i < n; i++) {
        P("%s[", i ? "," : ""); nev = 0; backward = ops[i] == 'B';
        switch (ops[i]) {
        case 'r': track_forward_start(tr); step = first_; break;
        case 's': if (step < last_) { see(tr->fb, 0); trackcorr_c_loop(tr, step); step++; } break;
        case 'f': trackcorr_c_finish(tr, step); break;
        case 'F': { int s; track_forward_start(tr);
            for (s = first_; s < last_; s++) { see(tr->fb, 0); trackcorr_c_loop(tr, s); }
            trackcorr_c_finish(tr, last_); break; }
        case 'B': trackback_c(tr); break;
        }
        P("]");
    }
    P("]}");
    end();
}
int main(void) { char cmd[64]; while (rcmd(cmd)) { if (!strcmp(cmd, "hist")) hist(); else return 3; } return 0; }
