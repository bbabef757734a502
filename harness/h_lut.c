/* C21: refraction tables. Input: seed, scene kind, number of actions, actions. */
#include "hcommon.h"
#include "hscene.h"
#include "multimed.h"
#include "imgcoord.h"
#include "ray_tracing.h"
static Calibration *cam[2]; static mm_np med[2]; static volume_par vol[2];
static double sgn(void) { return rnd() < .5 ? -1 : 1; }
/* two cameras, two media, two volumes sharing one glass wall, everything below the glass */
static void scene(int seed, int kind) {
    int i; double g, d = 2 + 6 * rnd(), gx, gy;
    rng_seed(seed); for (i = 0; i < 20; i++) rnd();
    g = kind == 1 ? .0001 : kind == 2 ? 20 + 60 * rnd() : 1; gx = gy = 0;
    d = 2 + 6 * rnd();
    if (kind == 3) { gx = .2 * g * (rnd() - .5); gy = .2 * g * (rnd() - .5); }
    if (kind == 2) { gx = .1 * g * (rnd() - .5); }
    for (i = 0; i < 2; i++) {
        double z = 200 + 400 * rnd() + g + d;
        if (cam[i]) free(cam[i]);
        cam[i] = look_at_origin(z * .4 * (rnd() - .5), z * .4 * (rnd() - .5), z, 30 + 40 * rnd(), .2 * (rnd() - .5));
        cam[i]->int_par.xh = .3 * (rnd() - .5); cam[i]->int_par.yh = .3 * (rnd() - .5);
        cam[i]->glass_par.vec_x = gx; cam[i]->glass_par.vec_y = gy; cam[i]->glass_par.vec_z = g;
        memset(&med[i], 0, sizeof med[i]);
        med[i].nlay = 1; med[i].n1 = 1; med[i].n2[0] = i ? 1.33 : 1.46 + .1 * rnd(); med[i].n3 = i ? 1.2 + .2 * rnd() : 1.33; med[i].d[0] = d;
        memset(&vol[i], 0, sizeof vol[i]);
        vol[i].X_lay[0] = -40; vol[i].X_lay[1] = 40;
        vol[i].Zmin_lay[0] = -60 - 40 * rnd(); vol[i].Zmin_lay[1] = -60 - 40 * rnd();
        vol[i].Zmax_lay[0] = -20 - 20 * rnd(); vol[i].Zmax_lay[1] = -20 - 20 * rnd();
    }
}
int main(void) {
    char op[64];
    while (rcmd(op)) {
        int seed = ri(), kind = ri(), na = ri(), i, a, c = 0, m = 0, v = 0, p; Calibration cal, keep, fresh; control_par *cp; char *acts[32]; double *d0;
        for (i = 0; i < na; i++) acts[i] = strdup(rs());
        scene(seed, kind);
        cp = make_cpar(1, 640 + rndi(700), 480 + rndi(600), .008, .009, 1.33, 1);
        cal = *cam[0]; cal.mmlut.data = NULL;
        begin(); P("{\"seed\":%d,\"kind\":%d,\"acts\":[", seed, kind);
        for (i = 0; i < na; i++) P("%s\"%s\"", i ? "," : "", acts[i]);
        P("],\"out\":[");
        for (a = 0; a < na; a++) {
            *cp->mm = med[m];
            if (a) P(",");
            if (!strcmp(acts[a], "camera")) { c = 1 - c; keep = cal; cal = *cam[c]; cal.mmlut = keep.mmlut; P("[]"); }
            else if (!strcmp(acts[a], "media")) { m = 1 - m; P("[]"); }
            else if (!strcmp(acts[a], "volume")) { v = 1 - v; P("[]"); }
            else if (!strcmp(acts[a], "build")) {
                int same; volume_par kv = vol[v]; mm_np km = *cp->mm; control_par kc = *cp;
                keep = cal; init_mmlut(&vol[v], cp, &cal);
                fresh = *cam[c]; memset(&fresh.mmlut, 0, sizeof fresh.mmlut); init_mmlut(&vol[v], cp, &fresh);
                same = fresh.mmlut.nr == cal.mmlut.nr && fresh.mmlut.nz == cal.mmlut.nz && fresh.mmlut.rw == cal.mmlut.rw && !memcmp(fresh.mmlut.origin, cal.mmlut.origin, sizeof cal.mmlut.origin)
                    && !memcmp(fresh.mmlut.data, cal.mmlut.data, sizeof(double) * cal.mmlut.nr * cal.mmlut.nz);
                free(fresh.mmlut.data);
                P("[%d,%d,%d]", same, !memcmp(&keep.ext_par, &cal.ext_par, sizeof cal.ext_par) && !memcmp(&keep.int_par, &cal.int_par, sizeof cal.int_par)
                    && !memcmp(&keep.glass_par, &cal.glass_par, sizeof cal.glass_par) && !memcmp(&keep.added_par, &cal.added_par, sizeof cal.added_par),
                    !memcmp(&kv, &vol[v], sizeof kv) && !memcmp(&km, cp->mm, sizeof km) && !memcmp(&kc, cp, sizeof kc));
            } else {
                /* points inside the pictured volume, next to every edge of the table, and far outside */
                P("[");
                for (p = 0; p < 60; p++) {
                    Calibration plain = cal; vec3d pos, hit, dir; double x, y, u, w, x1, y1, u1, w1, z, s; Exterior et; vec3d pt; double cp_[3], cc_[3];
                    plain.mmlut.data = NULL;
                    z = p < 20 ? vol[v].Zmin_lay[0] + (vol[v].Zmax_lay[0] - vol[v].Zmin_lay[0]) * rnd()
                      : p < 30 ? vol[v].Zmin_lay[p % 2] + 6 * (rnd() - .6)          /* around the lower end */
                      : p < 40 ? vol[v].Zmax_lay[p % 2] + 6 * (rnd() - .4) : -400 * rnd() - 10;
                    s = p < 20 ? 1 : p % 2 ? 1.02 : 1.6;
                    if (p >= 40 && cal.mmlut.data && (p % 2 || p > 56)) {  /* in the camera's own frame: edges of the table in radius and height */
                        double R = p > 56 ? cal.mmlut.rw * (.3 + .5 * rnd()) : p % 4 == 1 ? (cal.mmlut.nr - 1) * cal.mmlut.rw + 3 * (rnd() - .5) : cal.mmlut.nr * cal.mmlut.rw * rnd(), h = p > 56 ? cal.mmlut.origin[2] + 10 + 20 * rnd() : p % 8 < 3 ? cal.mmlut.origin[2] + 3 * (rnd() - .5) : cal.mmlut.origin[2] + (cal.mmlut.nz - 1) * cal.mmlut.rw * (p % 8 < 6 ? 1 : rnd()) + 3 * (rnd() - .5), ph = 6.2832 * rnd(); vec3d g, e1, e2, foot;
                        vec_set(g, cal.glass_par.vec_x, cal.glass_par.vec_y, cal.glass_par.vec_z); unit_vector(g, g);
                        vec_set(e1, g[2], 0, -g[0]); unit_vector(e1, e1); vec_cross(g, e1, e2);
                        vec_set(pos, cal.ext_par.x0, cal.ext_par.y0, cal.ext_par.z0); x = vec_dot(pos, g); 
                        vec_scalar_mul(g, -x, foot); vec_add(pos, foot, pos);           /* camera's foot on the plane through 0 */
                        z = h + sqrt(pow(cal.glass_par.vec_x, 2) + pow(cal.glass_par.vec_y, 2) + pow(cal.glass_par.vec_z, 2));
                        pos[0] += R * cos(ph) * e1[0] + R * sin(ph) * e2[0] + z * g[0];
                        pos[1] += R * cos(ph) * e1[1] + R * sin(ph) * e2[1] + z * g[1];
                        pos[2] += R * cos(ph) * e1[2] + R * sin(ph) * e2[2] + z * g[2];
                    } else {
                        x = s * (rnd() - .5) * cp->imx * cp->pix_x; y = s * (rnd() - .5) * cp->imy * cp->pix_y;
                        ray_tracing(x, y, &plain, *cp->mm, hit, dir); move_along_ray(z, hit, dir, pos);
                    }
                    flat_image_coord(pos, &plain, cp->mm, &x, &y); flat_image_coord(pos, &cal, cp->mm, &u, &w);
                    img_coord(pos, &plain, cp->mm, &x1, &y1); img_coord(pos, &cal, cp->mm, &u1, &w1);
                    trans_Cam_Point(plain.ext_par, *cp->mm, plain.glass_par, pos, &et, pt, cp_, cc_);
                    P("%s[%d,%d,%d,%d,%d]", p ? "," : "", q(pt[0], 1e3), q(u - x, 1e7), q(w - y, 1e7), q(u1 - x1, 1e7), q(w1 - y1, 1e7));
                }
                P("]");
            }
        }
        P("]}"); end();
        free(cal.mmlut.data);
        for (i = 0; i < na; i++) free(acts[i]);
        free_control_par(cp);
    }
    return 0;
}
