/* state-space filter (C19).  Cosine and sine are replaced by exact rotations: one day of the annual harmonic turns by 90 degrees
 * (or 45 degrees, for looking at the second harmonic), so every trigonometric identity holds and all values are dyadic. */
#include "vh.h"
#include <math.h>
#include <stdbool.h>
#define MINIBLAS
#include "minigsl.h"
#include "const.h"
#include "defines.h"
#include "2d_array.h"
#include "misc.h"
#include "KFAS.h"
#ifndef STEP
#define STEP 2            /* eighths of a turn per day of the annual harmonic: 2 or 1 */
#endif
static double rot(double x, int kind)
{
    static const double c[8] = {1, 0.5, 0, -0.5, -1, -0.5, 0, 0.5};        /* odd eighths: placeholder, never multiplied with a non-zero state */
    double q = x / (6.283185307179586476925286766559 / 365.25), f;
    long n = (long)(q < 0 ? q - 0.5 : q + 0.5);
    f = q - n;
    vh_assert((f < 0.35) & (f > -0.35), "cosine or sine of something that is not a harmonic of a date");
    int e = (int)(((n * STEP) % 8 + 8) % 8);
    return kind ? c[(e + 6) % 8] : c[e];
}
float cosf(float a) { return (float)rot(a, 0); }
float sinf(float a) { return (float)rot(a, 1); }
double cos(double a) { return rot(a, 0); }
double sin(double a) { return rot(a, 1); }
void sincosf(float a, float *s, float *c) { *s = sinf(a); *c = cosf(a); }
void sincos(double a, double *s, double *c) { *s = sin(a); *c = cos(a); }
#define M 6
static ssmodel_constants in;
static void model(float h)
{
    in.Z = gsl_vector_calloc(M); in.T = gsl_matrix_calloc(M, M); in.Q = gsl_matrix_calloc(M, M);
    vh_assert(initialize_ssmconstants(M, h, &in) == SUCCESS, "setup");
    vh_assert((in.m == M) & (in.H == h), "setup keeps the number of states and the measurement variance");
}
static void coefs(float *c)
{
    c[0] = vh_range(-9000, 9000);
    c[1] = 625 * (float)vh_range(-100, 100);
    for (int j = 2; j < SCCD_NUM_C; j++) c[j] = STEP == 1 && j < 4 ? 0 : (float)vh_range(-700, 700);
}

#if defined K_ROUND
int main(void)
{
    float c[M], d[M], y[1], *cc[1];
    int i, date = 730000 + vh_fork(vh_range(0, 7)), x[1];
    gsl_vector *a = gsl_vector_alloc(M), *b = gsl_vector_alloc(M), *n = gsl_vector_alloc(M);
    model(1);
    coefs(c);
    fit_cft2vec_a(c, a, date, in.m, in.structure);
    vec_a2fit_cft(a, d, date, in.m, in.structure);
    for (i = 0; i < SCCD_NUM_C; i++) vh_assert(c[i] == d[i], "coefficients -> state -> coefficients");
    /* one prediction step is the state of the next day, and the observed part of the state is the model value */
    fit_cft2vec_a(c, n, date + 1, in.m, in.structure);
    gsl_blas_dgemv(CblasNoTrans, 1.0, in.T, a, 0.0, b);
    for (i = 0; i < M; i++) vh_assert(VV(b, i) == VV(n, i), "a prediction step is not the model one day later");
    double z = 0, e;
    gsl_blas_ddot(in.Z, a, &z);
    e = (double)c[0] + (double)date * c[1] / SLOPE_SCALE;
    for (i = 0; i < 2; i++) e += (double)c[2 + 2 * i] * rot((i + 1) * date * (6.283185307179586476925286766559 / 365.25), 0) + (double)c[3 + 2 * i] * rot((i + 1) * date * (6.283185307179586476925286766559 / 365.25), 1);
    vh_assert(z == e, "the observed part of the state is not the model value at the date");
    vh_reach("done");
    return 0;
}
#elif defined K_STEP
/* one filter step against the textbook recursion: covariance fixed (two variants), state and observation free */
int main(void)
{
    int i, j, k, l, valid = vh_fork(vh_range(0, 1)), var = vh_fork(vh_range(0, 1));
    gsl_matrix *P = gsl_matrix_alloc(M, M), *Q = gsl_matrix_alloc(M, M);
    gsl_vector *a = gsl_vector_alloc(M), *K = gsl_vector_calloc(M), *att = gsl_vector_alloc(M);
    double p[M][M], q[M][M], T[M][M], z[M], k0[M], F = 0, v, a0[M], a1[M], x[M][M], w[M][M];
    float y = vh_range(-100, 10200), H;
    for (i = 0; i < M; i++) for (j = 0; j < M; j++) {
        p[i][j] = p[j][i] = i == j ? 16 + 4 * i : var ? (double)((i * j) % 3 - 1) : 0;
        q[i][j] = i == j ? 0.5 : 0;
    }
    for (i = 0; i < M; i++) for (j = 0; j < M; j++) { MM(P, i, j) = i <= j ? p[i][j] : 1000; MM(Q, i, j) = q[i][j]; }     /* only the upper triangle counts */
    model(1);
    for (i = 0; i < M; i++) { z[i] = VV(in.Z, i); a0[i] = vh_range(-3000, 3000); VV(a, i) = a0[i]; for (j = 0; j < M; j++) T[i][j] = MM(in.T, i, j); }
    for (i = 0; i < M; i++) { k0[i] = 0; for (j = 0; j < M; j++) k0[i] += p[i][j] * z[j]; F += z[i] * k0[i]; }
    H = (float)(128 - F);                                      /* innovation variance 128 */
    double ft = -1, vt = -1;
    gsl_vector_memcpy(att, a);
    if (valid) {
        filter1step_validobs(y, in.Z, &H, in.T, Q, a, P, &vt, &ft, K, M, att);
        v = y;
        for (i = 0; i < M; i++) v -= z[i] * a0[i];
        vh_assert(ft == 128 && vt == v, "innovation and its variance");
        for (i = 0; i < M; i++) { a1[i] = a0[i] + k0[i] * v / 128; vh_assert(VV(att, i) == a1[i], "updated state"); }
        for (i = 0; i < M; i++) for (j = 0; j < M; j++) x[i][j] = p[i][j] - k0[i] * k0[j] / 128;
        for (i = 0; i < M; i++) { double s = 0; for (j = 0; j < M; j++) s += T[i][j] * a1[j]; vh_assert(VV(a, i) == s, "predicted state"); }
    } else {
        filter1step_missingobs(in.Z, H, in.T, Q, &ft, P, K, M);
        for (i = 0; i < M; i++) { vh_assert(VV(a, i) == a0[i], "a missing observation leaves the state to the prediction"); for (j = 0; j < M; j++) x[i][j] = p[i][j]; }
    }
    for (i = 0; i < M; i++) for (j = 0; j < M; j++) { w[i][j] = 0; for (k = 0; k < M; k++) for (l = 0; l < M; l++) w[i][j] += T[i][k] * x[k][l] * T[j][l]; }
    for (i = 0; i < M; i++) for (j = i; j < M; j++) vh_assert(MM(P, i, j) == w[i][j] + q[i][j], "predicted covariance");
    for (i = 0; i < M; i++) vh_assert(MM(P, i, i) > 0, "a variance is not positive");
    in.H = H;
    { double f = 0; for (i = 0; i < M; i++) for (j = 0; j < M; j++) f += z[i] * (w[i][j] + q[i][j]) * z[j]; vh_assert(compute_f(P, in) == f + H, "innovation variance of a covariance"); }
    vh_reach("done");
    return 0;
}
#elif defined K_VAR
/* diagonal covariances of any size: an update never raises a variance nor makes it negative; no gain below the tolerance */
int main(void)
{
    VH_TAB(TP, 0, 1e-9, 1, 16, 3, 1e6); VH_TAB(TH, 0, 1, 0.01, 50, 1e5);
    int i;
    gsl_matrix *P = gsl_matrix_calloc(M, M), *Q = gsl_matrix_calloc(M, M), *I = gsl_matrix_calloc(M, M);
    gsl_vector *a = gsl_vector_alloc(M), *K = gsl_vector_calloc(M), *att = gsl_vector_calloc(M);
    double p[M], ft = -1, vt, F;
    float H = vh_pickf(TH), y = 700;
    model(1);
    for (i = 0; i < M; i++) { p[i] = i % 2 ? 2 : vh_pickd(TP); MM(P, i, i) = p[i]; MM(I, i, i) = 1; VV(a, i) = 100 * i; }
    F = p[0] + p[2] + p[4] + H;
    filter1step_validobs(y, in.Z, &H, I, Q, a, P, &vt, &ft, K, M, att);
    for (i = 0; i < M; i++) {
        vh_assert((MM(P, i, i) >= -1e-6 * p[i]) & (MM(P, i, i) <= p[i]), "an update makes a variance negative or larger");
        double d = VV(att, i) - 100 * i, g = i % 2 || F < 1e-12 ? 0 : p[i] * (y - 600) / F;
        vh_assert((d - g < 1e-6 * (1 + (g < 0 ? -g : g))) & (g - d < 1e-6 * (1 + (g < 0 ? -g : g))), "the state moves by gain times innovation");
    }
    vh_reach("done");
    return 0;
}
#elif defined K_INIP
int main(void)
{
    VH_TAB(TA, 0, 1, -300, 5000);
    double a[M], got, e;
    gsl_vector *v = gsl_vector_alloc(M);
    model(1);
    for (int i = 0; i < M; i++) { a[i] = i % 2 ? 7 : vh_pickd(TA); VV(v, i) = a[i]; }
    got = caculate_ini_p(M, v, in.Z);
    e = (a[0] + a[2] + a[4]) * 0.05; e = e * e / 3;
    vh_assert((got >= 0) & (got <= e * 1.0001 + 1e-9) & (got >= e * 0.9999 - 1e-9), "initial variance");
    for (int i = 0; i < M; i++) vh_assert((MM(in.Q, i, i) == (i == 1 ? 0.1 / 1000000 : 0.1)), "state disturbance");
    vh_reach("done");
    return 0;
}
#endif
