/* C22: matrix and vector routines on integer data. Every buffer has exactly the documented size. */
#include "hcommon.h"
#include "vec_utils.h"
#include "lsqadj.h"
#define MARK 77777.0
static double *buf(int n) { return malloc(n * sizeof(double)); }
static void D(const char *name, double *a, int n, double s) { int i; P("\"%s\":[", name); for (i = 0; i < n; i++) P("%s%d", i ? "," : "", q(a[i], s)); P("],"); }
int main(void) {
    char op[64];
    while (rcmd(op)) {
        int i, j;
        begin(); P("{\"op\":\"%s\",", op);
        if (!strncmp(op, "mat", 3) || !strncmp(op, "at", 2)) {
            int m = ri(), n = ri(), k = ri(), pm = ri(), pn = ri(), w = n + pn, lim = 0, nb, nc, no, same = 1; double *b, *c, *out, *kb, *kc;
            int inv = !strcmp(op, "matinv"), e = ri();     /* all contents in units of 2^e */
            nb = inv ? n * w : m * w; nc = !strcmp(op, "matmul") ? n * k : !strcmp(op, "atl") ? m : 1;
            no = !strcmp(op, "matmul") ? m * k : !strcmp(op, "atl") ? n : n * w;
            b = buf(nb); c = buf(nc); out = buf(no); kb = buf(nb); kc = buf(nc);
            for (i = 0; i < nb; i++) { b[i] = ri(); if (inv && fabs(b[i]) > lim) lim = fabs(b[i]); b[i] = ldexp(b[i], e); }
            for (i = 0; i < nc; i++) c[i] = ldexp(ri(), e);
            for (i = 0; i < no; i++) out[i] = MARK;
            memcpy(kb, b, nb * sizeof *b); memcpy(kc, c, nc * sizeof *c);
            if (!strcmp(op, "matmul")) matmul(out, b, c, m, n, k, m + pm, w);
            else if (!strcmp(op, "ata")) ata(b, out, m, n, w);
            else if (!strcmp(op, "atl")) atl(out, b, c, m, n, w);
            else { memcpy(out, b, nb * sizeof *b); matinv(out, n, w); }
            same = !memcmp(kb, b, nb * sizeof *b) && !memcmp(kc, c, nc * sizeof *c);
            for (i = 0; i < no; i++) out[i] = inv ? ldexp(out[i], i % w < n ? e : -e) : out[i] == MARK ? MARK : ldexp(out[i], -2 * e);
            for (i = 0; i < nb; i++) b[i] = ldexp(b[i], -e);
            for (i = 0; i < nc; i++) c[i] = ldexp(c[i], -e);
            P("\"m\":%d,\"n\":%d,\"k\":%d,\"padm\":%d,\"padn\":%d,\"lim\":%d,", m, n, k, pm, pn, lim);
            D("b", b, nb, 1); D("c", c, nc, 1); D("out", out, no, inv ? 1e6 : 1); P("\"same\":%d}", same);
            free(b); free(c); free(out); free(kb); free(kc);
        } else {
            int alias = ri(), s = ri(), e = ri(); vec3d u, v, ku, kv, o = {MARK, MARK, MARK}; double *out = alias == 1 ? u : alias == 2 ? v : o, val = 0, so = 1, sv = 1; int same;
            for (i = 0; i < 3; i++) u[i] = ldexp(ri(), e); for (i = 0; i < 3; i++) v[i] = ldexp(ri(), e);
            memcpy(ku, u, sizeof u); memcpy(kv, v, sizeof v);
            if (!strcmp(op, "subt")) vec_subt(u, v, out); else if (!strcmp(op, "add")) vec_add(u, v, out);
            else if (!strcmp(op, "scale")) vec_scalar_mul(u, s, out); else if (!strcmp(op, "copy")) vec_copy(out, u);
            else if (!strcmp(op, "set")) vec_set(out, u[0], u[1], u[2]); else if (!strcmp(op, "init")) vec_init(out);
            else if (!strcmp(op, "dot")) val = vec_dot(u, v); else if (!strcmp(op, "cross")) vec_cross(u, v, out);
            else if (!strcmp(op, "norm")) { val = vec_norm(u); sv = 1e3; } else if (!strcmp(op, "diffnorm")) { val = vec_diff_norm(u, v); sv = 1e3; }
            else if (!strcmp(op, "cmp")) val = vec_cmp(u, v) != 0; else if (!strcmp(op, "approx")) val = vec_approx_cmp(u, v, ldexp(s, e)) != 0;
            else if (!strcmp(op, "unit")) { val = vec_norm(u); sv = 1e3; so = 1e4; unit_vector(u, out); } else return 3;
            same = (out == u || !memcmp(u, ku, sizeof u)) && (out == v || !memcmp(v, kv, sizeof v));
            /* back to units of one: products scale twice, unit vectors not at all */
            { int p = !strcmp(op, "cross") || !strcmp(op, "dot") ? 2 : strcmp(op, "unit") && strcmp(op, "cmp") && strcmp(op, "approx") ? 1 : 0;
              for (i = 0; i < 3; i++) { ku[i] = ldexp(ku[i], -e); kv[i] = ldexp(kv[i], -e); if (out[i] != MARK) out[i] = ldexp(out[i], -p * e); }
              val = ldexp(val, !strcmp(op, "unit") ? -e : -p * e); }
            D("u", ku, 3, 1); D("v", kv, 3, 1); D("out", out, 3, so); P("\"s\":%d,\"val\":%d,\"same\":%d}", s, q(val, sv), same);
        }
        end();
    }
    return 0;
}
