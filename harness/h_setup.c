/* C28: tracking runs set up from files.
 * Input: number cameras frame, then for control, track, volume, sequence: values to keep (-1: no file), number of values, values.
 * Everything happens in a directory of its own under the current one. */
#include "hcommon.h"
#include "hscene.h"
#include "tracking_run.h"
#include "multimed.h"
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
size_t __sanitizer_get_current_allocated_bytes(void);
#define LIMIT 64
static const char *kind[4] = {"control", "track", "volume", "sequence"};
static char *tok[4][LIMIT]; static int keep[4], have[4], nc, frm;
static char name[4][64];
static int open_files(void) { DIR *d = opendir("/proc/self/fd"); int n = 0; while (readdir(d)) n++; closedir(d); return n; }
static char *text(int f) { static char b[16384]; int i; b[0] = 0; for (i = 0; i < keep[f] && i < have[f]; i++) { strcat(b, tok[f][i]); strcat(b, "\n"); } return b; }
static int intact(int f) { static char b[16384]; char *t = text(f); FILE *fp = fopen(name[f], "r"); size_t n; if (keep[f] < 0) { if (fp) fclose(fp); return !fp; } if (!fp) return 0; n = fread(b, 1, sizeof b - 1, fp); fclose(fp); b[n] = 0; return !strcmp(b, t); }
static int e8(double v) { return q(v, 8); }
static int isnum(int f, int i) { return f == 0 ? i == 0 || i > 2 * nc : f == 3 ? i >= nc : 1; }
static double val(int f, int i) { return i < have[f] ? atof(tok[f][i]) : 0; }
/* every plain file below the current directory with the number of words in it, sorted; which file is which
 * and which camera's it is shows in that number (camera i gets i + 1 targets) */
static int cmp(const void *a, const void *b) { return strcmp(*(char **) a, *(char **) b); }
static char *found[64]; static int nfound;
static int words(const char *f) { FILE *fp = fopen(f, "r"); char b[600]; int n = 0; while (fscanf(fp, "%599s", b) == 1) n++; fclose(fp); return n; }
static void scan(const char *at) {
    DIR *d = opendir(at); struct dirent *e; char b[2000]; struct stat s;
    while ((e = readdir(d))) { if (e->d_name[0] == '.') continue; snprintf(b, sizeof b, "%s%s%s", strcmp(at, ".") ? at : "", strcmp(at, ".") ? "/" : "", e->d_name);
        stat(b, &s); if (S_ISDIR(s.st_mode)) scan(b); else if (nfound < 64) if (strncmp(b, "par/", 4)) { sprintf(b + strlen(b), ":%d", words(b)); found[nfound++] = strdup(b); } }
    closedir(d);
}
static void sweep(const char *at) {
    DIR *d = opendir(at); struct dirent *e; char b[2000]; struct stat s;
    if (!d) return;
    while ((e = readdir(d))) { if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; snprintf(b, sizeof b, "%s/%s", at, e->d_name);
        lstat(b, &s); if (S_ISDIR(s.st_mode)) { sweep(b); rmdir(b); } else unlink(b); }
    closedir(d);
}
static void list(char **s, int n) {
    int i; qsort(s, n, sizeof *s, cmp);
    for (i = 0; i < n; i++) P("%s\"%s\"", i ? "," : "", s[i]);
}
static tracking_run *go(Calibration **cal) { return tr_new_legacy(name[3], name[1], name[2], name[0], cal); }
static void done(tracking_run *tr) { tr_free(tr); free(tr); }
int main(void) {
    char op[64], dir[64]; int i, f, t;
    while (rcmd(op)) {
        Calibration *cal[4], old[4]; tracking_run *tr; int whole = 1, fds, ok; size_t before; char *want[64]; int nwant = 0; char b[600];
        nc = ri(); frm = ri();
        for (f = 0; f < 4; f++) { keep[f] = ri(); have[f] = ri(); for (i = 0; i < have[f]; i++) tok[f][i] = strdup(rs()); if (keep[f] < have[f]) whole = 0; }
        sprintf(dir, "s%s", op); mkdir(dir, 0777); if (chdir(dir)) return 3;
        mkdir("res", 0777); mkdir("img", 0777); mkdir("par", 0777);
        for (f = 0; f < 4; f++) { FILE *fp; sprintf(name[f], "par/%s.par", kind[f]); if (keep[f] < 0) continue; fp = fopen(name[f], "w"); fputs(text(f), fp); fclose(fp); }
        for (i = 0; i < 4; i++) { cal[i] = look_at_origin(i % 2 ? 90 : -100, i / 2 ? 70 : -80, 500 + 10 * i, 60, .1 * i); cal[i]->glass_par.vec_z = 40; old[i] = *cal[i]; }
        tr = go(cal); if (tr) done(tr);      /* what is set up once and for all is no loss */
        fds = open_files(); before = __sanitizer_get_current_allocated_bytes();
        tr = go(cal); if (tr) done(tr);
        t = __sanitizer_get_current_allocated_bytes() != before;
        tr = go(cal);
        begin();
        P("{\"no\":\"%s\",\"cams\":%d,\"keep\":{", op, nc);
        for (f = 0; f < 4; f++) P("%s\"%s\":%d", f ? "," : "", kind[f], keep[f]);
        P("},\"made\":%d,\"kept\":%d,\"open\":%d,\"tok\":{", tr != NULL, t, open_files() - fds);
        for (f = 0; f < 4; f++) { int c = 0; P("%s\"%s\":[", f ? "," : "", kind[f]); for (i = 0; i < have[f]; i++) if (isnum(f, i)) P("%s%d", c++ ? "," : "", e8(val(f, i))); P("]"); }
        P("}");
        for (i = 0, ok = 1; i < 4; i++) ok = ok && !memcmp(cal[i], &old[i], sizeof old[i]);
        for (f = 0, i = 1; f < 4; f++) i = i && intact(f);
        P(",\"cal\":%d,\"files\":%d", ok, i);
        if (tr && whole) {
            control_par *c = tr->cpar; track_par *a = tr->tpar; volume_par *v = tr->vpar, w; sequence_par *s = tr->seq_par; double y0 = 0, y1 = 0; frame *fr; 
            int cn = 1, sn = 1;
            P(",\"got\":{\"control\":[%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d]", c->num_cams * 8, c->hp_flag * 8, c->allCam_flag * 8, c->tiff_flag * 8, c->imx * 8, c->imy * 8, e8(c->pix_x), e8(c->pix_y), c->chfield * 8, e8(c->mm->n1), e8(c->mm->n2[0]), e8(c->mm->n3), e8(c->mm->d[0]));
            P(",\"track\":[%d,%d,%d,%d,%d,%d,%d,%d,%d]", e8(a->dvxmin), e8(a->dvxmax), e8(a->dvymin), e8(a->dvymax), e8(a->dvzmin), e8(a->dvzmax), e8(a->dangle), e8(a->dacc), a->add * 8);
            P(",\"volume\":[%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d,%d]", e8(v->X_lay[0]), e8(v->Zmin_lay[0]), e8(v->Zmax_lay[0]), e8(v->X_lay[1]), e8(v->Zmin_lay[1]), e8(v->Zmax_lay[1]), e8(v->cnx), e8(v->cny), e8(v->cn), e8(v->csumg), e8(v->corrmin), e8(v->eps0));
            P(",\"sequence\":[%d,%d]}", s->first * 8, s->last * 8);
            for (i = 0; i < nc; i++) { cn = cn && !strcmp(c->img_base_name[i], tok[0][1 + 2 * i]) && !strcmp(c->cal_img_base_name[i], tok[0][2 + 2 * i]); sn = sn && !strcmp(s->img_base_name[i], tok[3][i]); }
            P(",\"cnames\":%d,\"snames\":%d,\"scams\":%d,\"rest\":[%d,%d,%d,%d],\"diag\":%d", cn, sn, s->num_cams, a->dsumg, a->dn, a->dnx, a->dny, q(tr->lmax * tr->lmax, 64));
            memset(&w, 0, sizeof w); w.X_lay[0] = val(2, 0); w.Zmin_lay[0] = val(2, 1); w.Zmax_lay[0] = val(2, 2); w.X_lay[1] = val(2, 3); w.Zmin_lay[1] = val(2, 4); w.Zmax_lay[1] = val(2, 5);
            volumedimension(&w.X_lay[1], &w.X_lay[0], &y1, &y0, &w.Zmax_lay[1], &w.Zmin_lay[0], &w, c, cal);
            P(",\"vol\":[%d,%d,%d,%d,%d,%d]", q(w.X_lay[0], 1e4), q(w.X_lay[1], 1e4), q(y0, 1e4), q(y1, 1e4), q(w.Zmin_lay[0], 1e4), q(w.Zmax_lay[1], 1e4));
            P(",\"volgot\":[%d,%d,%d,%d,%d,%d]", q(v->X_lay[0], 1e4), q(v->X_lay[1], 1e4), q(tr->ymin, 1e4), q(tr->ymax, 1e4), q(v->Zmin_lay[0], 1e4), q(v->Zmax_lay[1], 1e4));
            for (i = 0, ok = tr->cal == cal; i < tr->fb->buf_len; i++) ok = ok && tr->fb->buf[i]->num_cams == nc && tr->fb->buf[i]->max_targets == 20000;
            P(",\"count\":[%d,%d],\"window\":[%d,%d,%d,%d,%d]", tr->npart, tr->nlinks, tr->fb->buf_len, tr->fb->num_cams, tr->fb->buf[0]->max_targets, q(tr->flatten_tol, 1), ok);
            /* the names: what storing a frame writes */
            nfound = 0; fr = tr->fb->buf[0]; fr->num_parts = 1; memset(&fr->path_info[0], 0, sizeof(P)); memset(&fr->correspond[0], 0, sizeof(corres)); fr->correspond[0].nr = 1;
            fr->path_info[0].prio = 4; fr->path_info[0].prev = -1; fr->path_info[0].next = -2;
            for (i = 0; i < nc; i++) { fr->num_targets[i] = i + 1; memset(fr->targets[i], 0, (i + 1) * sizeof(target)); }
            tr->fb->_vptr->write_frame_from_start(tr->fb, frm);
            P(",\"wrote\":["); scan("."); list(found, nfound);
            sprintf(b, "res/rt_is.%d:9", frm); want[nwant++] = strdup(b); sprintf(b, "res/ptv_is.%d:6", frm); want[nwant++] = strdup(b); sprintf(b, "res/added.%d:7", frm); want[nwant++] = strdup(b);
            for (i = 0; i < nc; i++) { sprintf(b, "%s%04d_targets:%d", tok[3][i], frm, 1 + 8 * (i + 1)); want[nwant++] = strdup(b); }
            P("],\"want\":["); list(want, nwant); P("]");
        }
        P("}");
        if (tr) done(tr);
        for (f = 0; f < 4; f++) for (i = 0; i < have[f]; i++) free(tok[f][i]);
        for (i = 0; i < nfound; i++) free(found[i]); nfound = 0; for (i = 0; i < nwant; i++) free(want[i]);
        for (i = 0; i < 4; i++) free(cal[i]);
        end();
        sweep("."); if (chdir("..")) return 3; rmdir(dir);
    }
    return 0;
}
