/* Frame-buffer harness. Works in the current directory.
 *  ring n nops (op a b)*   : run a buffer of n frames through operations, showing the window after each
 *  files cams nops cap rcap op..   : frames of at most cap entries written, read into one of rcap; pad: how much
 *                            longer than usual the names passed are
 */
#include "hcommon.h"
#include <unistd.h>
#include "tracking_frame_buf.h"
#define CAMS 3
#define CAP 12
static char *targ[CAMS] = {"cam0.", "cam1.", "cam2."};

static const char *pats[3 + CAMS] = {"rt_is.%d", "ptv_is.%d", "added.%d", "cam0.%04d_targets", "cam1.%04d_targets", "cam2.%04d_targets"};
static void put(const char *name, int f, const char *text) {
    char fn[256]; FILE *h; sprintf(fn, name, f); h = fopen(fn, "w"); fputs(text, h); fclose(h);
}
/* the files of frame f, written independently of the library */
static void make_files(int f) {
    char b[8192], c[8192], d[8192]; int i, k, n = f + 1, m;
    sprintf(b, "%d\n", n); strcpy(c, b); strcpy(d, b);
    for (i = 0; i < n; i++) {
        sprintf(b + strlen(b), "%d %d.000 %d.000 %d.000 %d %d -1 -1\n", i + 1, f, i, -f, i % (f + 1), f);
        sprintf(c + strlen(c), "%d %d %d.000 %d.000 %d.000\n", f + 10, f + 20, f, i, -f);
        sprintf(d + strlen(d), "%d %d %d.000 %d.000 %d.000 %d\n", f + 10, f + 20, f, i, -f, f);
    }
    put("rt_is.%d", f, b); put("ptv_is.%d", f, c); put("added.%d", f, d);
    for (k = 0; k < CAMS; k++) {
        m = f + k;
        sprintf(b, "%d\n", m);
        for (i = 0; i < m; i++)
            sprintf(b + strlen(b), "%d %d.5000 %d.2500 %d 2 3 %d %d\n", i, f, 10 * i + k, f, 100 + f, i - 1);
        put(pats[3 + k], f, b);
    }
}
/* which frame's data is this? -> id and link flag, or id -7 when it is none */
static void decode(frame *fr, int *id, int *linked) {
    int f, i, k, ok, lk;
    *linked = 0;
    if (fr->num_parts == 0 && fr->num_targets[0] == 0 && fr->num_targets[1] == 0) { *id = 0; return; }
    for (f = 1; f <= 4; f++) {
        if (fr->num_parts != f + 1) continue;
        lk = fr->path_info[0].prev == f + 10;
        ok = 1;
        for (i = 0; i < f + 1; i++) {
            struct Pstruct *p = fr->path_info + i; corres *c = fr->correspond + i;
            if (p->x[0] != f || p->x[1] != i || p->x[2] != -f) ok = 0;
            if (c->nr != i + 1 || c->p[0] != i % (f + 1) || c->p[1] != f || c->p[2] != -1 || c->p[3] != -1) ok = 0;
            if (lk && (p->prev != f + 10 || p->next != f + 20 || p->prio != f)) ok = 0;
            /* default links come with priority 4 when not read, and keep it through a write */
            if (!lk && (p->prev != PREV_NONE || p->next != NEXT_NONE || p->prio != 4)) ok = 0;
        }
        for (k = 0; k < CAMS; k++) {
            if (fr->num_targets[k] != f + k) { ok = 0; continue; }
            for (i = 0; i < f + k; i++) {
                target *t = fr->targets[k] + i;
                if (t->pnr != i || t->x != f + 0.5 || t->y != 10 * i + k + 0.25 || t->n != f || t->nx != 2 ||
                    t->ny != 3 || t->sumg != 100 + f || t->tnr != i - 1) ok = 0;
            }
        }
        if (ok) { *id = f; *linked = lk; return; }
    }
    *id = -7;
}
static void wipe(void) {
    int f, k; char fn[256];
    for (f = 1; f <= 4; f++) for (k = 0; k < 3 + CAMS; k++) { sprintf(fn, pats[k], f); unlink(fn); }
}
static void ring(void) {
    framebuf b; int n = ri(), nops = ri(), i, k, f;
    wipe();
    for (f = 1; f <= 3; f++) make_files(f);
    fb_init(&b, n, CAMS, CAP, "rt_is", "ptv_is", "added", targ);
    begin();
    P("{\"n\":%d,\"ops\":[", n);
    for (k = 0; k < nops; k++) {
        char *op = rs(), o = op[0]; int a = ri(), lk = ri(), ret = 1, id, li;
        if (o == 'n') fb_next(&b.base);
        if (o == 'p') fb_prev(&b.base);
        if (o == 'r') ret = fb_read_frame_at_end(&b.base, a, lk) != 0;
        if (o == 'w') ret = fb_write_frame_from_start(&b.base, a) != 0;
        if (o == 'x') { char fn[256]; sprintf(fn, pats[lk - 1], a); unlink(fn); }      /* one of a frame's files disappears */
        if (o == 'm') {
            decode(b.base.buf[a - 1], &id, &li);
            for (i = 0; i < b.base.buf[a - 1]->num_parts; i++) {
                b.base.buf[a - 1]->path_info[i].prev = id + 10;
                b.base.buf[a - 1]->path_info[i].next = id + 20;
                b.base.buf[a - 1]->path_info[i].prio = id;
            }
        }
        P("%s{\"op\":\"%c\",\"a\":%d,\"b\":%d,\"ret\":%d,\"ring\":[", k ? "," : "", o, a, lk, ret);
        for (i = 0; i < n; i++) { decode(b.base.buf[i], &id, &li); P("%s[%d,%d]", i ? "," : "", id, li); }
        P("]}");
    }
    P("]}");
    end();
    fb_free(&b.base);
}
/* ---- files: write/read histories of whole frames ------------------------------------------------ */
static char *tb[4] = {"ca.", "cb.", "cc.", "cd."};
/* the same names after "./././": pad more characters (even) */
static char *named(int pad, const char *base) {
    char *s = malloc(pad + strlen(base) + 1); int i;
    for (i = 0; i < pad; i++) s[i] = i % 2 ? '/' : '.';
    strcpy(s + pad, base); return s;
}
static char **bases(int pad) {
    char **b = malloc(7 * sizeof *b); int i; const char *other[3] = {"rt_is", "ptv_is", "added"};
    for (i = 0; i < 7; i++) b[i] = named(pad, i < 4 ? tb[i] : other[i - 4]);
    return b;
}
static void drop(char **b) { int i; for (i = 0; i < 7; i++) free(b[i]); free(b); }
static void fname(char *out, const char *kind, int cam, int n) {
    if (!strcmp(kind, "rt")) sprintf(out, "rt_is.%d", n);
    else if (!strcmp(kind, "link")) sprintf(out, "ptv_is.%d", n);
    else if (!strcmp(kind, "prio")) sprintf(out, "added.%d", n);
    else if (n > 0) sprintf(out, "%s%04d_targets", tb[cam], n);
    else sprintf(out, "%s_targets", tb[cam]);
}
/* rows of a file as integers, decimals scaled; independent of the library's reader */
static int rows(const char *fn, double scale) {
    FILE *h = fopen(fn, "r"); char line[4096], *t; int first = 1, f2, cnt = -1;
    if (!h) { P("[]"); return -1; }
    if (fgets(line, sizeof line, h)) cnt = atoi(line);
    P("[");
    while (fgets(line, sizeof line, h)) {
        P("%s[", first ? "" : ","); first = 0; f2 = 1;
        for (t = strtok(line, " \t\n"); t; t = strtok(NULL, " \t\n")) {
            P("%s%d", f2 ? "" : ",", strchr(t, '.') ? q(atof(t), scale) : atoi(t)); f2 = 0;
        }
        P("]");
    }
    P("]"); fclose(h); return cnt;
}
static void parts_json(frame *f, double sc) {
    int i; 
    for (i = 0; i < f->num_parts; i++) { 
        struct Pstruct *p = f->path_info + i; corres *c = f->correspond + i;
        P("%s[%d,%d,%d,%d,%d,%d,%d,%d,%d,%d]", i ? "," : "", q(p->x[0], sc), q(p->x[1], sc), q(p->x[2], sc),
          p->prev, p->next, p->prio, c->p[0], c->p[1], c->p[2], c->p[3]);
    }
}
static void targs_json(target *t, int n) {
    int i;
    for (i = 0; i < n; i++) P("%s[%d,%d,%d,%d,%d,%d,%d,%d]", i ? "," : "", t[i].pnr, q(t[i].x, 1e5), q(t[i].y, 1e5),
        t[i].n, t[i].nx, t[i].ny, t[i].sumg, t[i].tnr);
}
static void read_targ_in(target *t, int n) {
    int i; for (i = 0; i < n; i++) { t[i].pnr = ri(); t[i].x = ri() / 1e5; t[i].y = ri() / 1e5; t[i].n = ri(); t[i].nx = ri();
        t[i].ny = ri(); t[i].sumg = ri(); t[i].tnr = ri(); }
}
static void files(void) {
    int cams = ri(), nops = ri(), cap = ri(), rcap = ri(), k, pad, i, j, n, prio, links, ret;
    frame src, dst; char **b; target *tt = calloc(cap, sizeof(target)); char fn[256];
    system("rm -f ./rt_is.* ./ptv_is.* ./added.* ./*_targets");
    frame_init(&src, cams, cap); frame_init(&dst, cams, rcap);
    begin(); P("{\"cams\":%d,\"cap\":%d,\"ops\":[", cams, rcap);
    for (k = 0; k < nops; k++) {
        char *op = rs();
        if (k) P(",");
        if (!strcmp(op, "w")) {
            n = ri(); prio = ri(); pad = ri(); src.num_parts = ri();
            for (i = 0; i < src.num_parts; i++) {
                struct Pstruct *p = src.path_info + i;
                for (j = 0; j < 3; j++) p->x[j] = ri() / 1e6;
                p->prev = ri(); p->next = ri(); p->prio = ri(); p->inlist = 3; p->finaldecis = 0.5;
                src.correspond[i].nr = i + 1;
                for (j = 0; j < 4; j++) src.correspond[i].p[j] = ri();
            }
            for (j = 0; j < cams; j++) { src.num_targets[j] = ri(); read_targ_in(src.targets[j], src.num_targets[j]); }
            P("{\"op\":\"w\",\"n\":%d,\"prio\":%d,\"pad\":%d,\"parts\":[", n, prio, pad); parts_json(&src, 1e6);
            P("],\"targs\":[");
            for (j = 0; j < cams; j++) { P("%s[", j ? "," : ""); targs_json(src.targets[j], src.num_targets[j]); P("]"); }
            b = bases(pad); ret = write_frame(&src, b[4], b[5], prio ? b[6] : NULL, b, n) != 0; drop(b);
            P("],\"ret\":%d,\"files\":{", ret);
            fname(fn, "rt", 0, n); P("\"rt\":"); P(",\"nrt\":%d", rows(fn, 1e3));
            fname(fn, "link", 0, n); P(",\"link\":"); P(",\"nlink\":%d", rows(fn, 1e3));
            if (prio) { fname(fn, "prio", 0, n); P(",\"prio\":"); P(",\"nprio\":%d", rows(fn, 1e3)); }
            P(",\"targ\":["); int cnt[4];
            for (j = 0; j < cams; j++) { fname(fn, "targ", j, n); if (j) P(","); cnt[j] = rows(fn, 1e4); }
            P("],"); PI_("ntarg", cnt, cams); P("}}");
        } else if (!strcmp(op, "r")) {
            int clean = 1;
            n = ri(); links = ri(); prio = ri(); pad = ri();
            b = bases(pad); ret = read_frame(&dst, b[4], links ? b[5] : NULL, prio ? b[6] : NULL, b, n) != 0; drop(b);
            P("{\"op\":\"r\",\"n\":%d,\"links\":%d,\"prio\":%d,\"pad\":%d,\"ret\":%d", n, links, prio, pad, ret);
            if (ret) {
                P(",\"parts\":["); parts_json(&dst, 1e6); P("],\"nr\":[");
                for (i = 0; i < dst.num_parts; i++) P("%s%d", i ? "," : "", dst.correspond[i].nr);
                P("],\"targs\":[");
                for (j = 0; j < cams; j++) { P("%s[", j ? "," : ""); targs_json(dst.targets[j], dst.num_targets[j]); P("]"); }
                for (i = 0; i < dst.num_parts; i++) {
                    struct Pstruct *p = dst.path_info + i;
                    if (p->inlist != 0 || p->finaldecis < 999999.0) clean = 0;
                    p->inlist = 2; p->finaldecis = 1;     /* dirt for the next read to clear */
                }
                P("],\"clean\":%d", clean);
            }
            P("}");
        } else if (!strcmp(op, "c")) {
            char *kind, *how; int cam, v, back; FILE *h; static char buf[1 << 20]; size_t len;
            n = ri(); kind = rs(); cam = ri(); how = rs(); v = ri();
            fname(fn, kind, cam, n);
            if (!strcmp(how, "none")) unlink(fn);
            else {
                h = fopen(fn, "r"); len = h ? fread(buf, 1, sizeof buf, h) : 0; if (h) fclose(h);
                while (len && (buf[len - 1] == '\n' || buf[len - 1] == ' ')) len--;
                if (v == 2) len = 0;
                else if (v == 1) { while (len && buf[len - 1] != '\n') len--; }            /* drop the last row */
                else { while (len && buf[len - 1] != ' ' && buf[len - 1] != '\n') len--; } /* drop the last value */
                h = fopen(fn, "w"); fwrite(buf, 1, len, h); fclose(h);
            }
            P("{\"op\":\"c\",\"n\":%d,\"kind\":\"%s\",\"cam\":%d,\"how\":\"%s\"}", n, kind, cam + 1, how);
        } else if (!strcmp(op, "wt")) {
            n = ri(); pad = ri(); j = ri(); read_targ_in(tt, j);
            b = bases(pad); ret = write_targets(tt, j, b[0], n) != 0; drop(b);
            P("{\"op\":\"wt\",\"n\":%d,\"pad\":%d,\"ret\":%d,\"targs\":[", n, pad, ret); targs_json(tt, j); P("]}");
        } else if (!strcmp(op, "rt")) {
            n = ri(); pad = ri(); memset(tt, 0x55, cap * sizeof(target));
            b = bases(pad); ret = read_targets(tt, b[0], n); drop(b);
            P("{\"op\":\"rt\",\"n\":%d,\"pad\":%d,\"ret\":%d,\"targs\":[", n, pad, ret); if (ret > 0) targs_json(tt, ret); P("]}");
        }
    }
    P("]}"); end();
    free_frame(&src); free_frame(&dst); free(tt);
    system("rm -f ./rt_is.* ./ptv_is.* ./added.* ./*_targets");
}
int main(void) {
    char c[64];
    while (rcmd(c)) {
        if (!strcmp(c, "ring")) ring();
        else if (!strcmp(c, "files")) files();
        else { fprintf(stderr, "harness: unknown command %s\n", c); return 3; }
    }
    return 0;
}
