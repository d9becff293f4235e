/* harmonic models: prediction (C13), regression plumbing (C14), screening (C17); change-vector angles (C15) */
#ifndef ND
#define ND 3
#endif
#ifdef K_ANGLE
#include "vh.h"
#include <math.h>
#else
#include "harm.h"
#endif
#include <stdbool.h>
#include "const.h"
#include "defines.h"
#include "2d_array.h"
#include "misc.h"

#define OUT 65536

#ifndef K_ANGLE
static void dates(void) { for (int i = 0; i < ND; i++) HD[i] = 730000 + 10000 * i; }
#endif

#if defined K_PREDICT
static const int DFS[] = {2, 4, 5, 6, 8};
int main(void)
{
    int di = vh_fork(vh_range(0, 4)), df = DFS[di], band = vh_fork(vh_range(0, NBANDS - 1)), i, j;
    int start = vh_fork(vh_range(0, ND - 1)), end = vh_fork(vh_range(0, ND - 1));
    vh_assume(start <= end);
    dates();
    REAL **c = (REAL **)allocate_2d_array(NBANDS, MAX_NUM_C, sizeof(REAL)), y[ND + 1];
    for (i = 0; i < NBANDS; i++) for (j = 0; j < MAX_NUM_C; j++) c[i][j] = i == band ? 0 : 1e6 + i * 10 + j;
    /* one coefficient at a time may be anything else: the slope from a table (it is divided), the others from a wide range */
    c[band][0] = vh_range(-9000, 9000);
    for (j = 1; j < MAX_NUM_C; j++) {
        if (df == 5 || j != 1) c[band][j] = vh_range(-700, 700);
        else c[band][j] = vh_range(-300, 300);
    }
    for (i = 0; i <= ND; i++) y[i] = 7777;
    int st = PREDICT(HD, c, df, band, start, end, y);
    vh_assert(st == SUCCESS, "prediction fails for a supported model size");
    for (i = start; i <= end; i++) {
        REAL e = c[band][0];
        int k = 1;
        if (df != 5) {
            e += c[band][1] * (REAL)HD[i] / (REAL)SCALE;
            k = 2;
        }
        for (int h = 1; k + 1 < df; h++, k += 2) e += c[band][k] * (REAL)h_basis(0, h, i) + c[band][k + 1] * (REAL)h_basis(1, h, i);
        vh_assert(y[i - start] == e, "prediction is not the harmonic series of the model");
    }
    for (i = end - start + 1; i <= ND; i++) vh_assert(y[i] == 7777, "prediction written past the window");
    vh_reach("done");
    return 0;
}
#elif defined K_FIT
/* elnet_ hands back a sparse solution: nin non-zero terms in any order of their indices */
static int e_calls, NROW, DF;
static float e_a0, e_c[9], e_x[8][ND], e_y[ND];
void elnet_(int *ka, float *parm, int *no, int *ni, float *x, float *y, float *w, int *jd, float *vp, int *ne, int *nx, int *nlam,
            float *flmin, float *ulam, float *thr, int *isd, int *lmu, float *a0, float *ca, int *ia, int *nin, float *rsq, float *alm,
            int *nlp, int *jerr)
{
    int i, j, n;
    vh_assert(e_calls++ == 0, "one regression per fit");
    vh_assert((*no == NROW) & (*ni == DF - 1), "size of the regression");
    vh_assert((*parm == 1.0f) & (*nlam == 1) & (*ulam == 20.0f) & (*isd == 1) & (*jd == 0), "lasso with penalty 20, standardised");
    for (i = 0; i < NROW; i++) {
        vh_assert(w[i] == 1.0f, "equal weights");
        vh_initialised(&y[i], 4, "regression target");
        e_y[i] = y[i];
        for (j = 0; j < DF - 1; j++) { vh_initialised(&x[j * NROW + i], 4, "regressor"); e_x[j][i] = x[j * NROW + i]; }
    }
    for (j = 0; j < DF - 1; j++) vh_assert(vp[j] == 1.0f, "equal penalties");
    n = vh_fork(vh_range(0, DF - 1));
    vh_assume(n == 0 || n == 1 || n == 2 || n == DF - 1);
    int rot = vh_fork(vh_range(0, DF - 2)), dir = vh_fork(vh_range(0, 1));
    *lmu = 1; nin[0] = n; *jerr = 0;
    a0[0] = e_a0 =
#ifdef RMSE
        120;
#else
        vh_range(-9000, 9000);
#endif
    for (j = 0; j < DF; j++) e_c[j] = 0;
    for (j = 0; j < n; j++) {
        int t = dir ? (rot + j) % (DF - 1) : (rot + (DF - 2) * j) % (DF - 1);
        VH_TAB(TS, 0.0009765625, -0.00390625);
        float v = t == 0 ? (float)vh_pick(TS, 2) :
#ifdef RMSE
            20 + j;
#else
            (float)vh_range(-700, 700);
#endif
        ia[j] = t + 1; ca[j] = v;
        e_c[t + 1] = v;
    }
}
int main(void)
{
    int i, j, b, start = 1, n;
    DF = FITDF;
    n = NROW = vh_fork(vh_range(DF + 1, ND - 2));
    int band = vh_fork(vh_range(0, 1)), lband = vh_fork(vh_range(0, 1)), end = start + n - 1;
    dates();
    float **clry = (float **)allocate_2d_array(2, ND, sizeof(float));
    REAL **c = (REAL **)allocate_2d_array(2, MAX_NUM_C, sizeof(REAL)), **vd = (REAL **)allocate_2d_array(2, ND, sizeof(REAL)), rmse = 0;
    for (b = 0; b < 2; b++) for (i = 0; i < ND; i++) {
#ifdef RMSE
        VH_TAB(TY, 0, 3, -500, 1000);
        clry[b][i] = b == band && i == start ? vh_pickf(TY) : (float)(b * 300 + i * 5 % 7);
#else
        clry[b][i] = b == band && (i == 1 || i == 3 || i == end) ? (float)vh_range(-100, 10200) : (float)(b * 300 + i * 5 % 7);
#endif
        vd[b][i] = 5555;
    }
    for (b = 0; b < 2; b++) for (j = 0; j < MAX_NUM_C; j++) c[b][j] = 4444 + b * 10 + j;
    int st = FIT(HD, clry, band, lband, start, end, DF, c, &rmse, vd);
    vh_assert(st == SUCCESS, "the fit succeeds");
    vh_assert(e_calls == 1, "one regression per fit");
    double sc = SLOPE;
    for (i = 0; i < n; i++) {
        vh_assert(e_y[i] == clry[band][start + i], "the regression target is the reflectance of the window");
        vh_assert(e_x[0][i] == (float)HD[start + i], "the first regressor is the date");
        for (j = 1; j < DF - 1; j++) vh_assert(e_x[j][i] == (float)h_basis((j - 1) % 2, 1 + (j - 1) / 2, start + i), "the other regressors are the annual harmonics in order");
    }
    for (j = 0; j < NCOEF; j++) {
        REAL want = j == 0 ? e_a0 : j == 1 ? (REAL)(e_c[1] * sc) : j < DF ? e_c[j] : 0;
        vh_assert(c[lband][j] == want, "a coefficient is not stored in its slot");
        vh_assert(c[!lband][j] == 4444 + !lband * 10 + j, "coefficients of another band are written");
    }
#ifndef RMSE
    for (i = 0; i < n; i++) {
        REAL p = e_a0 + e_c[1] * (REAL)HD[start + i];
        for (j = 2; j < DF; j++) p += e_c[j] * (REAL)h_basis(j % 2, j / 2, start + i);
        vh_assert(vd[lband][i] == (REAL)clry[band][start + i] - p, "residual is not observed minus predicted");
    }
#else
    double s = 0, r = rmse;
    for (i = 0; i < n; i++) s += (double)vd[lband][i] * vd[lband][i];
    vh_initialised(&rmse, sizeof rmse, "rmse");
    s /= n - DF;
    vh_assert((r * r <= s * 1.0001) & (r * r >= s * 0.9999) & (r >= 0), "rmse is not the root mean square with the degrees of freedom of the model");
#endif
    for (i = 0; i < ND; i++) vh_assert(vd[!lband][i] == 5555, "residuals of another band are written");
    vh_reach("done");
    return 0;
}
#elif defined K_MASK
#include "minigsl.h"
#include <gsl/gsl_multifit.h>
static int r_calls;
static double r_c[2][5];
static double r_y[2][ND];
static int r_n;
const gsl_multifit_robust_type *gsl_multifit_robust_bisquare = (const gsl_multifit_robust_type *)&r_calls;
gsl_multifit_robust_workspace *gsl_multifit_robust_alloc(const gsl_multifit_robust_type *T, const size_t n, const size_t p) { return malloc(1); }
void gsl_multifit_robust_free(gsl_multifit_robust_workspace *w) { free(w); }
int gsl_multifit_robust(const gsl_matrix *X, const gsl_vector *y, gsl_vector *c, gsl_matrix *cov, gsl_multifit_robust_workspace *w)
{
    int i, j, which = -1;
    vh_assert(r_calls < 2, "two robust fits");
    vh_assert((X->size1 == (size_t)r_n) & (y->size == (size_t)r_n) & (X->size2 == 5) & (c->size == 5), "size of the robust fit");
    for (i = 0; i < r_n; i++) {
        for (j = 0; j < 5; j++) {
            double v = X->data[i * X->tda + j];
            double e = j == 0 ? 1.0 : h_basis((j - 1) % 2, j < 3 || hw2 == 0 ? 1 : 4, SSTART + i);
            vh_assert(v == e, "design matrix of the robust fit");
        }
    }
    /* the band is recognised by its values: green of the window, or short-wave infrared of the window */
    int g = 1, s = 1;
    for (i = 0; i < r_n; i++) { g &= y->data[i * y->stride] == r_y[0][i]; s &= y->data[i * y->stride] == r_y[1][i]; }
    vh_assert(g | s, "the robust fit is given the green or the short-wave infrared values of the window");
    vh_assume(!(g & s));
    which = vh_fork(g) ? 0 : 1;
    r_calls++;
    for (j = 0; j < 5; j++) c->data[j * c->stride] = r_c[which][j];
    return 0;
}
int main(void)
{
    int i, k, j, n, ids[ND + 1], end = vh_fork(vh_range(SSTART, ND - 1));
    VH_TAB(TY, 1.0, 2.0, 1.5);
    float years = vh_pickf(TY);
    dates();
    hw2 = HW / (years > 1.0f ? 2 : 1);
    if (hw2 == HW) hw2 = 0;
    float **clry = (float **)allocate_2d_array(TOTAL_IMAGE_BANDS, ND, sizeof(float));
    for (k = 0; k < TOTAL_IMAGE_BANDS; k++) for (i = 0; i < ND; i++)
        clry[k][i] = (k == 1 || k == 4) && i == SSTART + k % 3 ? (float)vh_range(-100, 10200) : (float)(k * 100 + i);
    n = r_n = end - SSTART + 1;
    for (i = 0; i < n; i++) { r_y[0][i] = clry[1][SSTART + i]; r_y[1][i] = clry[4][SSTART + i]; }
    for (k = 0; k < 2; k++) for (j = 0; j < 5; j++) r_c[k][j] = j == 0 ? vh_range(-100, 10200) : j == 1 ? 64 * vh_fork(vh_range(-1, 1)) : 64 * (j + k);
    float t1 = 37.5f, t2 = 81.0f, nt = 4.0f;
    for (i = 0; i <= ND; i++) ids[i] = 9;
    int st = auto_mask(HD, clry, SSTART, end, years, t1, t2, nt, ids);
    vh_assert(st == SUCCESS, "screening succeeds");
    vh_assert(r_calls == 2, "one robust fit for each of the two bands");
    for (i = 0; i < n; i++) {
        double p[2];
        for (k = 0; k < 2; k++) {
            p[k] = r_c[k][0];
            for (j = 1; j < 5; j++) p[k] += r_c[k][j] * h_basis((j - 1) % 2, j < 3 || hw2 == 0 ? 1 : 4, SSTART + i);
        }
        double dg = clry[1][SSTART + i] - p[0], ds = clry[4][SSTART + i] - p[1];
        int want = (dg > 150.0) | (dg < -150.0) | (ds > 324.0) | (ds < -324.0);
        vh_assert((ids[i] != 0) == want, "an observation is not flagged by its own residuals");
    }
    for (i = n; i <= ND; i++) vh_assert(ids[i] == 9, "flags written past the window");
    vh_reach("done");
    return 0;
}
#elif defined K_ANGLE
/* angle of two vectors in degrees, in double precision with the cosine clamped */
static double ref_angle(const double *a, const double *b, int n)
{
    double p = 0, x = 0, y = 0, c;
    for (int j = 0; j < n; j++) { p += a[j] * b[j]; x += a[j] * a[j]; y += b[j] * b[j]; }
    c = p / sqrt(x * y);
    c = c > 1 ? 1 : c < -1 ? -1 : c;
    return acos(c) * 180.0 / 3.14159265358979323846;
}
int main(void)
{
    double v[NV + 1][3], want = 0, got, an[NV], tol;
    int nb = 3, i, j, k, n = 0;
    static int lb[3] = {2, 0, 3};          /* row of each band in the selective variants */
    double **vd = (double **)allocate_2d_array(4, NV + 1, sizeof(double));
    float **vf = (float **)allocate_2d_array(4, NV + 1, sizeof(float)), med[4];
    for (i = 0; i < 4; i++) { med[i] = 1e6; for (k = 0; k <= NV; k++) { vd[i][k] = 1e6; vf[i][k] = 1e6; } }
    for (k = 0; k < NV; k++) for (j = 0; j < 3; j++) v[k][j] = (k * 5 + j * 3) % 7 - 2 + (k == 2);
#ifdef PARALLEL
    /* the first vectors are multiples of one another: angle 0 or 180 */
    VH_TAB(T1, 1, 2, 3, 5, 7, 11, 13, 100); VH_TAB(T2, 0, 1, -1, 4, -5, 9, 10, 317); VH_TAB(T3, 1, 2, -1, 3, -2, 7, 0.5, 1000);
    double p = vh_pickd(T1), q = vh_pickd(T2), t = vh_pickd(T3), r = vh_pickd(T2);
    for (k = 0; k < NV; k++) { double f = k == 0 ? 1 : k == 1 ? t : 2; v[k][0] = f * p; v[k][1] = f * q; v[k][2] = f * r; }
#else
    VH_TAB(T, 0, 1, -3, 50, 1000); VH_TAB(U, 1, -2, 7, 90, -400);
    v[0][0] = vh_pickd(U); v[0][1] = vh_pickd(T); v[0][2] = vh_pickd(T);
    v[1][0] = vh_pickd(U); v[1][1] = vh_pickd(T);
#endif
    for (k = 0; k < NV; k++) for (j = 0; j < 3; j++) {
#ifdef SELECTIVE
        vf[lb[j]][k] = (float)v[k][j];
#else
        vf[j][k] = (float)v[k][j]; vd[j][k] = v[k][j];
#endif
    }
#ifdef SCATTER
    double m[3] = {3, -1, 2};
#ifdef PARALLEL
    for (j = 0; j < 3; j++) m[j] = v[0][j] * 3;
#endif
    for (j = 0; j < 3; j++) med[lb[j]] = (float)m[j];
    for (k = 0; k < NV; k++) an[n++] = ref_angle(m, v[k], 3);
    if (NV <= 2) n = 0;
#else
    for (k = 0; k + 1 < NV; k++) an[n++] = ref_angle(v[k], v[k + 1], 3);
#endif
#ifdef MEDIAN
    for (i = 0; i < n; i++) for (k = i; k > 0; k--) { double a = an[k - 1], b = an[k]; an[k - 1] = a < b ? a : b; an[k] = a < b ? b : a; }
    if (n) want = n % 2 ? an[n / 2] : (an[n / 2 - 1] + an[n / 2]) / 2;
#else
    for (i = 0; i < n; i++) want += an[i];
    if (n) want /= n;
#endif
    got = CALL;
    tol = 0.12;              /* binary32 acos near 0 and 180 degrees */
    vh_assert((got >= 0) & (got <= 180.001), "an angle is between 0 and 180 degrees");
    vh_assert((got - want < tol) & (want - got < tol), "angle of the change vectors of the window");
    vh_reach("done");
    return 0;
}
#endif
