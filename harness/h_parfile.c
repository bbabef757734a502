/* C14: reading and writing parameter and calibration files. The files are laid out by the check in
 * one directory per case; "echo" (the case as JSON) is copied into the record. */
#include "hcommon.h"
#include "hscene.h"
#include "sortgrid.h"
#include "orientation.h"
#include <dirent.h>
#include <sys/stat.h>

static char *echo(void) { static char b[1 << 16]; if (scanf(" %65535[^\n]", b) != 1) exit(3); return b; }
static char *path(const char *dir, const char *f) { static char b[4][4096]; static int k; k = (k + 1) % 4; snprintf(b[k], 4096, "%s/%s", dir, f); return b[k]; }

/* names and contents of everything in the directory but the files named */
static unsigned long hash_dir(const char *dir, const char *skip1, const char *skip2) {
    DIR *d = opendir(dir); struct dirent *e; unsigned long tot = 0;
    while (d && (e = readdir(d))) {
        unsigned long h = 5381; int c; FILE *f; const char *s;
        if (e->d_name[0] == '.' || (skip1 && !strcmp(e->d_name, skip1)) || (skip2 && !strcmp(e->d_name, skip2))) continue;
        for (s = e->d_name; *s; s++) h = h * 33 + *s;
        if ((f = fopen(path(dir, e->d_name), "r"))) { while ((c = fgetc(f)) != EOF) h = h * 33 + c; fclose(f); }
        tot += h;
    }
    if (d) closedir(d);
    return tot;
}

static const char *sep;
static void R(const char *n, double v) { char b[64]; snprintf(b, 64, "%.8f", v); if (!strcmp(b, "-0.00000000")) strcpy(b, "0.00000000"); P("%s\"%s\":\"%s\"", sep, n, b); sep = ","; }
static void I(const char *n, int v) { P("%s\"%s\":\"%d\"", sep, n, v); sep = ","; }
static void W(const char *n, int i, const char *v) { P("%s\"%s%d\":\"%.600s\"", sep, n, i, v); sep = ","; }
#define RR(p, f) R(#f, (p)->f)
#define II(p, f) I(#f, (p)->f)

static int read_one(const char *fmt, int size, char *file) {
    int i, ok = 0;
    sep = "";
    if (!strcmp(fmt, "track")) {
        track_par *t = read_track_par(file);
        if ((ok = t != NULL)) { P("\"rec\":{"); RR(t, dvxmin); RR(t, dvxmax); RR(t, dvymin); RR(t, dvymax); RR(t, dvzmin); RR(t, dvzmax); RR(t, dangle); RR(t, dacc);
            II(t, add); II(t, dsumg); II(t, dn); II(t, dnx); II(t, dny); P("},"); free(t); }
    } else if (!strcmp(fmt, "volume")) {
        volume_par *v = read_volume_par(file);
        if ((ok = v != NULL)) { P("\"rec\":{"); R("X_lay0", v->X_lay[0]); R("X_lay1", v->X_lay[1]); R("Zmin_lay0", v->Zmin_lay[0]); R("Zmin_lay1", v->Zmin_lay[1]);
            R("Zmax_lay0", v->Zmax_lay[0]); R("Zmax_lay1", v->Zmax_lay[1]); RR(v, cnx); RR(v, cny); RR(v, cn); RR(v, csumg); RR(v, corrmin); RR(v, eps0); P("},"); free(v); }
    } else if (!strcmp(fmt, "sequence")) {
        sequence_par *s = read_sequence_par(file, size);
        if ((ok = s != NULL)) { P("\"rec\":{"); II(s, first); II(s, last); II(s, num_cams); for (i = 0; i < size; i++) W("img", i, s->img_base_name[i]); P("},"); free_sequence_par(s); }
    } else if (!strcmp(fmt, "control")) {
        control_par *c = read_control_par(file);
        if ((ok = c != NULL)) { P("\"rec\":{"); II(c, num_cams); for (i = 0; i < c->num_cams; i++) { W("img", i, c->img_base_name[i]); W("cal", i, c->cal_img_base_name[i]); }
            II(c, hp_flag); II(c, allCam_flag); II(c, tiff_flag); II(c, imx); II(c, imy); RR(c, pix_x); RR(c, pix_y); II(c, chfield);
            R("n1", c->mm->n1); R("n2", c->mm->n2[0]); R("n3", c->mm->n3); R("d", c->mm->d[0]); I("nlay", c->mm->nlay); P("},"); free_control_par(c); }
    } else if (!strcmp(fmt, "target")) {
        target_par *t = read_target_par(file);
        if ((ok = t != NULL)) { P("\"rec\":{"); for (i = 0; i < 4; i++) { char n[16]; sprintf(n, "gvthres%d", i); I(n, t->gvthres[i]); }
            II(t, discont); II(t, nnmin); II(t, nnmax); II(t, nxmin); II(t, nxmax); II(t, nymin); II(t, nymax); II(t, sumg_min); II(t, cr_sz); P("},"); free(t); }
    } else if (!strcmp(fmt, "orient")) {
        orient_par *o = read_orient_par(file);
        if ((ok = o != NULL)) { P("\"rec\":{"); II(o, useflag); II(o, ccflag); II(o, xhflag); II(o, yhflag); II(o, k1flag); II(o, k2flag); II(o, k3flag); II(o, p1flag);
            II(o, p2flag); II(o, scxflag); II(o, sheflag); II(o, interfflag); P("},"); free(o); }
    } else if (!strcmp(fmt, "sortgrid")) {
        int e = read_sortgrid_par(file);
        if ((ok = e != 0)) { P("\"rec\":{"); I("eps", e); P("},"); }
    } else if (!strcmp(fmt, "calblock")) {
        int n = -7; vec3d *p = read_calblock(&n, file);
        ok = p != NULL;
        P("\"pts\":["); for (i = 0; ok && i < n; i++) { int k; P("%s[", i ? "," : ""); for (k = 0; k < 3; k++) { char b[64]; snprintf(b, 64, "%.8f", p[i][k]); if (!strcmp(b, "-0.00000000")) strcpy(b, "0.00000000"); P("%s\"%s\"", k ? "," : "", b); } P("]"); }
        P("],"); free(p);
    } else exit(3);
    return ok;
}

static void out_cal(Exterior *e, Interior *in, Glass *g, ap_52 *a) {
    int i, j;
    sep = ""; P("\"rec\":{"); RR(e, x0); RR(e, y0); RR(e, z0); RR(e, omega); RR(e, phi); RR(e, kappa);
    for (i = 0; i < 3; i++) for (j = 0; j < 3; j++) { char n[8]; sprintf(n, "dm%d%d", i, j); R(n, e->dm[i][j]); }
    RR(in, xh); RR(in, yh); RR(in, cc); RR(g, vec_x); RR(g, vec_y); RR(g, vec_z);
    RR(a, k1); RR(a, k2); RR(a, k3); RR(a, p1); RR(a, p2); RR(a, scx); RR(a, she); P("},");
    P("\"dm\":["); for (i = 0; i < 3; i++) P("%s[%d,%d,%d]", i ? "," : "", q(e->dm[i][0], 1e4), q(e->dm[i][1], 1e4), q(e->dm[i][2], 1e4)); P("],");
}

int main(void) {
    char op[64];
    while (rcmd(op)) {
        unsigned long h0, h1; int ok, i;
        begin(); P("{\"op\":\"%s\",", op);
        if (!strcmp(op, "read")) {
            char *fmt = rs(), *dir; int size = ri(); dir = rs();
            h0 = hash_dir(dir, 0, 0); ok = read_one(fmt, size, path(dir, "main")); h1 = hash_dir(dir, 0, 0);
            P("\"ok\":%d,", ok);
        } else if (!strcmp(op, "manori")) {
            int cam = ri(); char *dir = rs(); vec3d fix[4]; int k;
            memset(fix, 0, sizeof fix); h0 = hash_dir(dir, 0, 0);
            ok = read_man_ori_fix(fix, path(dir, "block"), path(dir, "main"), cam); h1 = hash_dir(dir, 0, 0);
            P("\"ret\":%d,\"fix\":[", ok);
            for (i = 0; i < 4; i++) { P("%s[", i ? "," : ""); for (k = 0; k < 3; k++) { char b[64]; snprintf(b, 64, "%.8f", fix[i][k]); if (!strcmp(b, "-0.00000000")) strcpy(b, "0.00000000"); P("%s\"%s\"", k ? "," : "", b); } P("]"); }
            P("],");
        } else if (!strcmp(op, "cal")) {
            char *via = rs(), *dir = rs(); int amode = ri(), fmode = ri(); char *add = NULL, *fb = NULL; Calibration c, *p;
            if (amode) add = strdup(path(dir, "add")); if (fmode) fb = strdup(path(dir, "fb"));
            h0 = hash_dir(dir, 0, 0);
            memset(&c, 0x5a, sizeof c);
            if (!strcmp(via, "ori")) { if ((ok = read_ori(&c.ext_par, &c.int_par, &c.glass_par, path(dir, "main"), &c.added_par, add, fb))) out_cal(&c.ext_par, &c.int_par, &c.glass_par, &c.added_par); }
            else { p = read_calibration(path(dir, "main"), add, fb); if ((ok = p != NULL)) { out_cal(&p->ext_par, &p->int_par, &p->glass_par, &p->added_par); ok = p->mmlut.data == NULL; free(p); } }
            h1 = hash_dir(dir, 0, 0); ok = ok != 0; free(add); free(fb);
            P("\"ok\":%d,", ok);
        } else if (!strcmp(op, "wcal")) {
            char *via = rs(), *dir = rs(), *where = rs(); int amode = ri(), wrote; double v[28]; Calibration c; Exterior e; char *add = NULL, *m;
            for (i = 0; i < 28; i++) v[i] = rd();
            memset(&c, 0, sizeof c); memcpy(&c.ext_par, v, 15 * sizeof *v); memcpy(&c.int_par, v + 15, 3 * sizeof *v); memcpy(&c.glass_par, v + 18, 3 * sizeof *v);
            c.added_par.k1 = v[21]; c.added_par.k2 = v[22]; c.added_par.k3 = v[23]; c.added_par.p1 = v[24]; c.added_par.p2 = v[25]; c.added_par.scx = v[26]; c.added_par.she = v[27];
            m = strdup(path(dir, strcmp(where, "no-dir") ? "main" : "none/main"));
            if (amode) add = strdup(path(dir, strcmp(where, "no-add-dir") ? "add" : "none/add"));
            h0 = hash_dir(dir, "main", add ? "add" : 0);
            wrote = !strcmp(via, "ori") ? write_ori(c.ext_par, c.int_par, c.glass_par, c.added_par, m, add) : write_calibration(&c, m, add);
            h1 = hash_dir(dir, "main", add ? "add" : 0);
            memset(&c, 0x5a, sizeof c);
            ok = read_ori(&c.ext_par, &c.int_par, &c.glass_par, m, &c.added_par, path(dir, add ? "add" : "nothing"), NULL) != 0;
            if (ok) out_cal(&c.ext_par, &c.int_par, &c.glass_par, &c.added_par);
            P("\"wrote\":%d,\"ok\":%d,", wrote != 0, ok); free(m); free(add);
        } else if (!strcmp(op, "wtar")) {
            char *dir = rs(), *where = rs(), *m; target_par t; int v[13];
            for (i = 0; i < 13; i++) v[i] = ri();
            for (i = 0; i < 4; i++) t.gvthres[i] = v[i];
            t.discont = v[4]; t.nnmin = v[5]; t.nnmax = v[6]; t.nxmin = v[7]; t.nxmax = v[8]; t.nymin = v[9]; t.nymax = v[10]; t.sumg_min = v[11]; t.cr_sz = v[12];
            m = strdup(path(dir, strcmp(where, "no-dir") ? "main" : "none/main"));
            h0 = hash_dir(dir, "main", 0); write_target_par(&t, m); h1 = hash_dir(dir, "main", 0);
            ok = read_one("target", 0, m); P("\"ok\":%d,", ok); free(m);
        } else return 3;
        P("\"same\":%d,%s", h0 == h1, echo() + 1); end();
    }
    return 0;
}
