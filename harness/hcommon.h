/* Shared by the conformance harnesses: whitespace-separated input on stdin, one "@ {json}" line
 * per case on stdout (the library prints its own chatter on stdout too). */
#ifndef HCOMMON_H
#define HCOMMON_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>

static FILE *OUT_;      /* case answer under construction */
static char *out_buf; static size_t out_len;
static void begin(void) { OUT_ = open_memstream(&out_buf, &out_len); }
static void end(void) { fclose(OUT_); printf("\n@ %s\n", out_buf); fflush(stdout); free(out_buf); }
#define P(...) fprintf(OUT_, __VA_ARGS__)

static int ri(void) { int x; if (scanf("%d", &x) != 1) { fprintf(stderr, "harness: bad int input\n"); exit(3); } return x; }
static double rd(void) { double x; if (scanf("%lf", &x) != 1) { fprintf(stderr, "harness: bad real input\n"); exit(3); } return x; }
static char *rs(void) { static char b[8][4096]; static int k; k = (k + 1) % 8;
    if (scanf("%4095s", b[k]) != 1) { fprintf(stderr, "harness: bad string input\n"); exit(3); } return b[k]; }
static int rcmd(char *b) { return scanf("%63s", b) == 1; }

/* a double as an integer in 1/scale units; values that are not (nearly) whole in that unit are
 * rounded; out-of-range values and NaN are mapped to sentinels TLC can hold */
static int q(double v, double scale) {
    double s;
    if (isnan(v)) return 2000000001;
    s = v * scale;
    if (s > 1.9e9) return 2000000002;
    if (s < -1.9e9) return -2000000002;
    return (int)lround(s);
}
static void PI_(const char *name, int *a, int n) { int i; P("\"%s\":[", name); for (i = 0; i < n; i++) P("%s%d", i ? "," : "", a[i]); P("]"); }
#endif
