/* C20: rays, projections, positions. */
#include "hcommon.h"
#include "hscene.h"
#include "orientation.h"
#include "ray_tracing.h"
#include "multimed.h"
#include "epi.h"
static void rv(vec3d v) { int i; for (i = 0; i < 3; i++) v[i] = ri(); }
static void V(const char *n, double *v, int k, double s) { int i; P("\"%s\":[", n); for (i = 0; i < k; i++) P("%s%d", i ? "," : "", q(v[i], s)); P("],"); }
static double away(vec3d p, vec3d at, vec3d dir) { vec3d d, x; vec_subt(p, at, d); vec_cross(d, dir, x); return vec_norm(x) / vec_norm(dir); }
static double buf[8][4000]; static int nb[8];
static void put(int k, double v) { buf[k][nb[k]++] = v; }
static int ncam;
static Calibration *cams[4], keepc[4]; static mm_np mm, keepm;
/* cameras around the axis, optionally behind a (possibly tilted) window */
static void scene(int seed, int layers, int nc) {
    int i; double g = layers ? 1 + 60 * rnd() : 1, tx = 0, ty = 0;
    rng_seed(seed); for (i = 0; i < 20; i++) rnd();
    g = rndi(3) ? 1 + 60 * rnd() : .001;
    if (rndi(2)) { tx = .3 * g * (rnd() - .5); ty = .3 * g * (rnd() - .5); }
    memset(&mm, 0, sizeof mm); mm.nlay = 1; mm.n1 = 1;
    mm.n2[0] = layers ? 1.2 + .5 * rnd() : 1; mm.n3 = layers ? 1 + .5 * rnd() : 1; mm.d[0] = 1 + 8 * rnd();
    if (layers == 2) mm.n1 = 1 + .2 * rnd();
    for (i = 0; i < nc; i++) {
        double z = g + 150 + 500 * rnd(), a = 6.2832 * (i + .6 * rnd()) / nc, r = z * (.15 + .25 * rnd());
        if (cams[i]) free(cams[i]);
        cams[i] = look_at_origin(r * cos(a), r * sin(a), z, 20 + 60 * rnd(), 6 * (rnd() - .5));
        cams[i]->int_par.xh = .6 * (rnd() - .5); cams[i]->int_par.yh = .6 * (rnd() - .5);
        cams[i]->glass_par.vec_x = tx; cams[i]->glass_par.vec_y = ty; cams[i]->glass_par.vec_z = g;
        if (rndi(2)) {
            ap_52 *p = &cams[i]->added_par;
            p->k1 = 2e-4 * (rnd() - .5); p->k2 = 1e-6 * (rnd() - .5); p->p1 = 1e-4 * (rnd() - .5); p->p2 = 1e-4 * (rnd() - .5); p->scx = 1 + .02 * (rnd() - .5); p->she = .02 * (rnd() - .5);
        }
        keepc[i] = *cams[i];
    }
    keepm = mm; ncam = nc;
}
static int kept(int nc) { int i, ok = !memcmp(&mm, &keepm, sizeof mm); for (i = 0; i < nc; i++) ok = ok && !memcmp(cams[i], &keepc[i], sizeof keepc[i]); return ok; }

static void below(vec3d p, double reach) {     /* a point on the far side of the window, seen by all cameras on a sensor of 20 mm */
    vec3d g; double h, x, y; int i, out;
    vec_set(g, cams[0]->glass_par.vec_x, cams[0]->glass_par.vec_y, cams[0]->glass_par.vec_z);
    do { p[0] = reach * (rnd() - .5); p[1] = reach * (rnd() - .5); p[2] = -reach * rnd(); h = vec_dot(p, g) / vec_norm(g); out = 0; reach *= .99;
        if (h < vec_norm(g) - .5) for (i = 0; i < ncam; i++) { flat_image_coord(p, cams[i], &mm, &x, &y); if (fabs(x) > 10 || fabs(y) > 10) out = 1; }
    } while (h > vec_norm(g) - .5 || out);
}
/* flat coordinates of a point as one would get them from an image */
static void seen(vec3d p, int c, double *x, double *y) { img_coord(p, cams[c], &mm, x, y); dist_to_flat(*x, *y, cams[c], x, y, 1e-12); }
int main(void) {
    char op[64]; int i, j, k;
    while (rcmd(op)) {
        begin(); P("{\"op\":\"%s\",", op);
        for (i = 0; i < 8; i++) nb[i] = 0;
        if (!strcmp(op, "skew")) {
            vec3d a, u, b, v, m = {9, 9, 9}, k1, k2, k3, k4; double g, u1, v1; int same;
            rv(a); rv(u); rv(b); rv(v);
            V("a", a, 3, 1); V("u", u, 3, 1); V("b", b, 3, 1); V("v", v, 3, 1);
            unit_vector(u, u); unit_vector(v, v); vec_copy(k1, a); vec_copy(k2, u); vec_copy(k3, b); vec_copy(k4, v);
            g = skew_midpoint(a, u, b, v, m);
            same = vec_cmp(k1, a) && vec_cmp(k2, u) && vec_cmp(k3, b) && vec_cmp(k4, v);
            V("mid", m, 3, 1e4); P("\"gap\":%d,\"same\":%d}", q(g, 50), same);
        } else if (!strcmp(op, "pos")) {
            int n = ri(), used[4]; vec2d t[4], kt[4]; Calibration *c[4], kc[4]; vec3d res = {7, 7, 7}, at[4], dir[4]; double rcm, pr[6]; int np = 0, same = 1; mm_np one; 
            memset(&one, 0, sizeof one); one.nlay = 1; one.n1 = one.n2[0] = one.n3 = 1; one.d[0] = 1;
            P("\"cams\":[");
            for (i = 0; i < n; i++) {
                int x, y, z, cc, a, b; used[i] = ri(); x = ri(); y = ri(); z = ri(); a = ri(); b = ri(); cc = ri();
                c[i] = straight_down(x, y, z, cc, 0, 0); c[i]->glass_par.vec_z = .5; kc[i] = *c[i];
                t[i][0] = used[i] ? a : COORD_UNUSED; t[i][1] = used[i] ? b : (b % 2 ? COORD_UNUSED : b);
                P("%s{\"used\":%d,\"x\":%d,\"y\":%d,\"z\":%d,\"u\":%d,\"v\":%d,\"cc\":%d}", i ? "," : "", used[i], x, y, z, a, b, cc);
            }
            P("],"); memcpy(kt, t, sizeof t);
            rcm = point_position(t, n, &one, c, res);
            for (i = 0; i < n; i++) same = same && !memcmp(c[i], &kc[i], sizeof kc[i]) && !memcmp(t[i], kt[i], sizeof t[i]);
            for (i = 0; i < n; i++) if (used[i]) ray_tracing(t[i][0], t[i][1], c[i], one, at[i], dir[i]);
            for (i = 0; i < n; i++) for (j = i + 1; j < n; j++) if (used[i] && used[j]) { vec3d m; pr[np++] = skew_midpoint(at[i], dir[i], at[j], dir[j], m); }
            V("res", res, 3, 1e4); V("pairs", pr, np, 1e6); P("\"rcm\":%d,\"same\":%d}", q(rcm, 1e6), same);
            for (i = 0; i < n; i++) free(c[i]);
        } else if (!strcmp(op, "scene")) {
            int seed = ri(), layers = ri(), nc = ri(), np = ri(); scene(seed, layers, nc);
            for (i = 0; i < np; i++) {
                vec3d p, at, dir, w, r, cp, g, in; double x, y, u, v, s1, s2, o; int perm[4], cnt = 0; vec2d t[4]; Calibration *c[4];
                below(p, 120);
                for (k = 0; k < nc; k++) {
                    seen(p, k, &x, &y); ray_tracing(x, y, cams[k], mm, at, dir); put(0, away(p, at, dir));
                    flat_image_coord(p, cams[k], &mm, &u, &v); put(2, u - x); put(2, v - y);
                    /* any ray: walk along it, project, come back */
                    x = 12 * (rnd() - .5) * cams[k]->int_par.cc / 40; y = 10 * (rnd() - .5) * cams[k]->int_par.cc / 40;
                    ray_tracing(x, y, cams[k], mm, at, dir); s1 = 1 + 150 * rnd();
                    for (j = 0; j < 3; j++) w[j] = at[j] + s1 * dir[j];
                    flat_image_coord(w, cams[k], &mm, &u, &v); put(1, u - x); put(1, v - y);
                    /* law of refraction, in the plane of incidence; start on the inner face of the window */
                    vec_set(g, cams[k]->glass_par.vec_x, cams[k]->glass_par.vec_y, cams[k]->glass_par.vec_z); o = vec_norm(g); unit_vector(g, g);
                    put(3, vec_dot(at, g) - o);
                    for (j = 0; j < 3; j++) in[j] = cams[k]->ext_par.dm[j][0] * x + cams[k]->ext_par.dm[j][1] * y - cams[k]->ext_par.dm[j][2] * cams[k]->int_par.cc;
                    unit_vector(in, in); vec_cross(g, in, r); s1 = vec_norm(r); vec_cross(g, dir, r); s2 = vec_norm(r);
                    put(4, mm.n1 * s1 - mm.n3 * s2); put(4, vec_norm(dir) - 1); vec_cross(g, in, r); put(4, vec_dot(r, dir)); put(4, vec_dot(g, dir) < 0 ? 0 : 1);
                    vec_set(cp, cams[k]->ext_par.x0, cams[k]->ext_par.y0, cams[k]->ext_par.z0); s2 = (o + mm.d[0] - vec_dot(cp, g)) / vec_dot(in, g);
                    for (j = 0; j < 3; j++) w[j] = at[j] - cp[j] - s2 * in[j];                    /* path inside the glass */
                    put(4, vec_norm(w) * mm.n1 * s1 - mm.n2[0] * sqrt(fabs(vec_dot(w, w) - mm.d[0] * mm.d[0]))); put(4, fabs(vec_dot(r, w)) * .1);
                }
                /* positions: some cameras, some order, the others unused */
                for (k = 0; k < nc; k++) perm[k] = k;
                for (k = nc - 1; k > 0; k--) { j = rndi(k + 1); int h = perm[k]; perm[k] = perm[j]; perm[j] = h; }
                do { cnt = 0; for (k = 0; k < nc; k++) { c[k] = cams[perm[k]]; if (rndi(4)) { seen(p, perm[k], &t[k][0], &t[k][1]); cnt++; } else t[k][0] = t[k][1] = COORD_UNUSED; } } while (cnt < 2);
                s1 = point_position(t, nc, &mm, c, r); put(6, s1); for (j = 0; j < 3; j++) put(5, r[j] - p[j]);
            }
            P("\"seed\":%d,\"layers\":%d,", seed, layers);
            V("miss", buf[0], nb[0], 1e7); V("back", buf[1], nb[1], 1e7); V("dist", buf[2], nb[2], 1e7); V("onglass", buf[3], nb[3], 1e7); V("snell", buf[4], nb[4], 1e7); V("pos", buf[5], nb[5], 1e7); V("rcm", buf[6], nb[6], 1e7);
            P("\"same\":%d}", kept(nc));
        } else if (!strcmp(op, "nlay")) {      /* a plane-parallel stack under a camera looking from straight above its own foot: the refracted path ends at the point */
            int seed = ri(), n = ri(); Calibration cal, kc; mm_np st, ks;
            rng_seed(seed); for (i = 0; i < 20; i++) rnd();
            memset(&st, 0, sizeof st); st.nlay = n; st.n1 = 1 + (rndi(2) ? 0 : .2 * rnd()); st.n3 = 1.1 + .5 * rnd();
            for (i = 0; i < n; i++) { st.n2[i] = 1.1 + .6 * rnd(); st.d[i] = 1 + 9 * rnd(); }
            for (k = 0; k < 20; k++) {
                vec3d p, kp; double X, Y, r, rq, b, want, Z, th, lowest = 0;
                memset(&cal, 0, sizeof cal); cal.ext_par.x0 = 60 * (rnd() - .5); cal.ext_par.y0 = 60 * (rnd() - .5); cal.ext_par.z0 = 150 + 300 * rnd(); kc = cal; ks = st;
                for (i = 1; i < n; i++) lowest += st.d[i];
                Z = -lowest - 100 * rnd(); th = 6.2832 * rnd(); r = rndi(8) ? .7 * rnd() * (cal.ext_par.z0 - Z) : 0;
                vec_set(p, cal.ext_par.x0 + r * cos(th), cal.ext_par.y0 + r * sin(th), Z); vec_copy(kp, p);
                multimed_nlay(&cal, &st, p, &X, &Y);
                X -= cal.ext_par.x0; Y -= cal.ext_par.y0; rq = sqrt(X * X + Y * Y); b = atan(rq / (cal.ext_par.z0 - Z));
                want = (cal.ext_par.z0 - st.d[0]) * tan(b) - (Z + lowest) * tan(asin(sin(b) * st.n1 / st.n3));
                for (i = 0; i < n; i++) want += st.d[i] * tan(asin(sin(b) * st.n1 / st.n2[i]));
                put(0, want - r); put(1, X * sin(th) - Y * cos(th)); put(2, r > 0 ? (X * cos(th) + Y * sin(th) > 0 ? 0 : 1) : rq);
                put(3, memcmp(&cal, &kc, sizeof cal) || memcmp(&st, &ks, sizeof st) || memcmp(kp, p, sizeof p));
            }
            P("\"seed\":%d,\"n\":%d,", seed, n); V("end", buf[0], nb[0], 1e6); V("aside", buf[1], nb[1], 1e6); V("ahead", buf[2], nb[2], 1e6); V("changed", buf[3], nb[3], 1); P("\"same\":1}");
        } else if (!strcmp(op, "epi")) {
            int seed = ri(), layers = ri(); volume_par vp; vec3d at, dir, r1, r2, m; double x, y, z[3]; vec2d t[2]; Calibration *c[2];
            scene(seed, layers, 2); memset(&vp, 0, sizeof vp);
            vp.X_lay[0] = -20 - rndi(60); vp.X_lay[1] = 20 + rndi(60);
            for (i = 0; i < 2; i++) { vp.Zmin_lay[i] = -90 - rndi(60); vp.Zmax_lay[i] = -30 - rndi(50); }
            x = 8 * (rnd() - .5); y = 8 * (rnd() - .5); c[0] = cams[0]; c[1] = cams[1];
            ray_tracing(x, y, cams[0], mm, at, dir);
            t[0][0] = x; t[0][1] = y;
            { double xa, ya, xb, yb; epi_mm(x, y, cams[0], cams[1], &mm, &vp, &xa, &ya, &xb, &yb);
              t[1][0] = xa; t[1][1] = ya; put(0, point_position(t, 2, &mm, c, r1)); put(0, away(r1, at, dir));
              t[1][0] = xb; t[1][1] = yb; put(0, point_position(t, 2, &mm, c, r2)); put(0, away(r2, at, dir)); }
            epi_mm_2D(x, y, cams[0], &mm, &vp, m); put(1, away(m, at, dir));
            P("\"seed\":%d,\"zmin\":[%d,%d],\"zmax\":[%d,%d],\"x\":[%d,%d],\"at\":%d,\"lo\":%d,\"hi\":%d,\"mid\":%d,", seed, (int)vp.Zmin_lay[0], (int)vp.Zmin_lay[1], (int)vp.Zmax_lay[0], (int)vp.Zmax_lay[1],
              (int)vp.X_lay[0], (int)vp.X_lay[1], q(at[0], 100), q(r1[2], 100), q(r2[2], 100), q(m[2], 100));
            V("off", buf[0], nb[0], 1e4); V("midoff", buf[1], nb[1], 1e4); P("\"same\":%d}", kept(2));
        } else if (!strcmp(op, "dumb")) {
            int seed = ri(), layers = ri(), nc = ri(), n = ri(), w = ri(), db = ri(); vec2d **t = malloc(n * sizeof *t); vec3d p, d, r[2]; double obj, len = db / 1e4;
            scene(seed, layers, nc);
            for (i = 0; i < n; i++) {
                t[i] = malloc(nc * sizeof **t);
                if (i % 2 == 0) below(p, 60); else { do { vec_set(d, rnd() - .5, rnd() - .5, -rnd()); } while (vec_norm(d) < .3); unit_vector(d, d); for (j = 0; j < 3; j++) p[j] += d[j] * len * (.8 + .4 * rnd()); }
                for (k = 0; k < nc; k++) { seen(p, k, &t[i][k][0], &t[i][k][1]); t[i][k][0] += .02 * (rnd() - .5); t[i][k][1] += .02 * (rnd() - .5); }
                if (nc > 2 && rndi(3) == 0) t[i][rndi(nc)][0] = COORD_UNUSED;
            }
            obj = weighted_dumbbell_precision(t, n, nc, &mm, cams, len, w);
            for (i = 0; i < n; i++) { put(0, point_position(t[i], nc, &mm, cams, r[i % 2])); if (i % 2) put(1, vec_diff_norm(r[0], r[1])); free(t[i]); }
            free(t);
            P("\"seed\":%d,\"w\":%d,\"db\":%d,\"obj\":%d,", seed, w, db, q(obj, 1e4)); V("rcm", buf[0], nb[0], 1e4); V("len", buf[1], nb[1], 1e4); P("\"same\":%d}", kept(nc));
        } else return 3;
        end();
    }
    return 0;
}
