/* C23: the library called directly, element by element; results as 17-digit decimals.
 * in: fn cams  n1 n2 d n3  imx imy pix_x pix_y  zmin zmax xmin xmax
 *     per camera 3 position 3 angles 3 interior 3 radial 2 decentering 2 affine 3 glass
 *     p1 p2 n m   n*m numbers */
#include "hcommon.h"
#include "hscene.h"
#include "orientation.h"
#include "ray_tracing.h"
#include "multimed.h"
#include "epi.h"
#include "trafo.h"
static int first_;
static void out(double v) { P("%s\"%.17g\"", first_ ? "" : ",", v == 0 ? 0. : v); first_ = 0; }
int main(void) {
    char fn[64];
    while (rcmd(fn)) {
        int cams = ri(), i, j, n, m;
        control_par *cp = new_control_par(cams);
        volume_par vp; memset(&vp, 0, sizeof vp);
        Calibration *cal[4];
        double p1, p2, *a;
        memset(cp->mm, 0, sizeof *cp->mm);
        cp->mm->nlay = 1; cp->mm->n1 = rd(); cp->mm->n2[0] = rd(); cp->mm->d[0] = rd(); cp->mm->n3 = rd();
        cp->imx = ri(); cp->imy = ri(); cp->pix_x = rd(); cp->pix_y = rd(); cp->chfield = 0;
        vp.Zmin_lay[0] = vp.Zmin_lay[1] = rd(); vp.Zmax_lay[0] = vp.Zmax_lay[1] = rd(); vp.X_lay[0] = rd(); vp.X_lay[1] = rd();
        for (i = 0; i < cams; i++) {
            Calibration *c = cal[i] = calloc(1, sizeof *c);
            c->ext_par.x0 = rd(); c->ext_par.y0 = rd(); c->ext_par.z0 = rd(); c->ext_par.omega = rd(); c->ext_par.phi = rd(); c->ext_par.kappa = rd();
            rotation_matrix(&c->ext_par);
            c->int_par.xh = rd(); c->int_par.yh = rd(); c->int_par.cc = rd();
            c->added_par.k1 = rd(); c->added_par.k2 = rd(); c->added_par.k3 = rd(); c->added_par.p1 = rd(); c->added_par.p2 = rd(); c->added_par.scx = rd(); c->added_par.she = rd();
            c->glass_par.vec_x = rd(); c->glass_par.vec_y = rd(); c->glass_par.vec_z = rd();
        }
        p1 = rd(); p2 = rd(); n = ri(); m = ri();
        a = malloc(sizeof(double) * (n * m + 1));
        for (i = 0; i < n * m; i++) a[i] = rd();
        begin(); P("["); first_ = 1;
        if (!strcmp(fn, "flat") || !strcmp(fn, "image")) for (i = 0; i < n; i++) {
            double x, y;
            (fn[0] == 'f' ? flat_image_coord : img_coord)(a + 3 * i, cal[0], cp->mm, &x, &y);
            out(x); out(y);
        } else if (!strncmp(fn, "to_", 3)) for (i = 0; i < n; i++) {       /* p1: tolerance */
            double x, y, u = a[2 * i], v = a[2 * i + 1];
            if (!strcmp(fn, "to_metric")) pixel_to_metric(&x, &y, u, v, cp);
            else if (!strcmp(fn, "to_pixel")) metric_to_pixel(&x, &y, u, v, cp);
            else if (!strcmp(fn, "to_corrected")) correct_brown_affin(u, v, cal[0]->added_par, &x, &y);
            else if (!strcmp(fn, "to_distorted")) distort_brown_affin(u, v, cal[0]->added_par, &x, &y);
            else dist_to_flat(u, v, cal[0], &x, &y, p1);
            out(x); out(y);
        } else if (!strcmp(fn, "position")) for (i = 0; i < n; i++) {
            vec3d res; double r = point_position((vec2d *)(a + m * i), cams, cp->mm, cal, res);
            for (j = 0; j < 3; j++) out(res[j]);
            out(r);
        } else if (!strcmp(fn, "single")) for (i = 0; i < n; i++) {
            vec3d res; epi_mm_2D(a[2 * i], a[2 * i + 1], cal[0], cp->mm, &vp, res);
            for (j = 0; j < 3; j++) out(res[j]);
            out(0);
        } else if (!strcmp(fn, "dumbbell")) {
            vec2d **t = malloc(n * sizeof *t);
            for (i = 0; i < n; i++) t[i] = (vec2d *)(a + m * i);
            out(weighted_dumbbell_precision(t, n, cams, cp->mm, cal, p1, p2));
            free(t);
        } else if (!strcmp(fn, "curve")) {         /* p1: number of points */
            double x, y; vec3d v, d, pos; int k = (int)p1;
            pixel_to_metric(&x, &y, a[0], a[1], cp);
            dist_to_flat(x, y, cal[0], &x, &y, 0.00001);
            ray_tracing(x, y, cal[0], *cp->mm, v, d);
            for (i = 0; i < k; i++) {
                double z = i == k - 1 && k > 1 ? vp.Zmax_lay[0] : i * ((vp.Zmax_lay[0] - vp.Zmin_lay[0]) / (k > 1 ? k - 1 : 1)) + vp.Zmin_lay[0];
                move_along_ray(z, v, d, pos);
                img_coord(pos, cal[1], cp->mm, &x, &y);
                metric_to_pixel(&x, &y, x, y, cp);
                out(x); out(y);
            }
        } else if (!strcmp(fn, "matched")) for (i = 0; i < n; i++) {   /* p1: tolerance */
            double x, y;
            pixel_to_metric(&x, &y, a[2 * i], a[2 * i + 1], cp);
            dist_to_flat(x, y, cal[0], &x, &y, p1);
            out(x); out(y);
        }
        P("]"); end();
        for (i = 0; i < cams; i++) free(cal[i]);
        free(a); free_control_par(cp);
    }
    return 0;
}
