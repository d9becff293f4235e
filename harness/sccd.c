/* sccd(): a pixel followed through a sequence of calls (detect, then updates).  The numeric kernels (decided on their own by C08,
 * C13-C15, C17, C19) are replaced by an abstract pixel as in seg.c: every observation has a level.  A model carries tokens: its
 * coefficients are the level, the window it was fitted to, the number of observations filtered since and the band; its covariance
 * carries the date the filter stands at; its measurement variance names the band.  What survives the saved state from one call to
 * the next is therefore checked value by value.  sccd, sccd_standard, sccd_snow, step1_cold_initialize, step2, step3 are real. */
#include "pix.h"
#include "minigsl.h"
#include "s_ccd.h"
#ifndef CONSE
#define CONSE 3
#endif
#ifndef GAP
#define GAP 60
#endif
#ifndef LEVELS
#define LEVELS 0, 2, 3
#endif
#ifndef GAPS
#define GAPS 0, -50, 400
#endif
#define S TOTAL_IMAGE_BANDS_SCCD
#define D0 735000
#define TCG 15.0863
#define GATE 9.236
#include <time.h>
clock_t clock(void) { return 0; }
static float LV[NOBS];
static int n_vario;
static float sc(int b) { return 500 + 100 * b; }      /* what a level unit means in a band: its minimum rmse */
/* BIGR: the residuals of the model are larger than the minimum rmse, and rate the deviations */
#ifdef BIGR
#define MR(b) (sc(b) / 4)
#define RM(b) sc(b)
#define SUM0(b, n) ((unsigned)(sc(b) * sc(b)) * ((n) - SCCD_NUM_C))
#define VT(b) sc(b)
#else
#define MR(b) sc(b)
#define RM(b) (10 + (b))
#define SUM0(b, n) (100u * ((b) + 1))
#define VT(b) 3
#endif
static float h_of(int b) { return RM(b) * RM(b); }
#define FITN(x) ((int)(x) % 64)        /* window length and last day of a fit share a slot */
#define FITEND(x) ((int)(x) / 64)
static int FL[NOBS], usab[NOBS], snow;
static int obs_at(int d) { for (int i = 0; i < NOBS; i++) if (usab[i] && D[i] == d) return i; return -1; }
static int obs_of(int *clrx, float **clry, int k)
{
    int i = obs_at(clrx[k]), b;
    vh_assert(i >= 0, "a work row is dated at no usable observation");
    for (b = 0; b < S; b++) vh_assert(clry[b][k] == (float)B[b][i], "a work row holds the readings of another observation");
    return i;
}
int adjust_median_variogram(int *clrx, float **array, int n, int a, int e, float *date_vario, float *mx, float *out, int option)
{
    vh_assert(n <= S, "bands");
    for (int i = 0; i < n; i++) out[i] = MR(i) + n_vario;
    n_vario += 10;
    *date_vario = 16; *mx = 16;
    return SUCCESS;
}
int auto_mask(int *clrx, float **clry, int start, int end, float years, float t_b1, float t_b2, float n_t, int *bl)
{
    vh_assert((start >= 0) & (end >= start), "screening window");
    for (int k = start; k <= end; k++) bl[k - start] = FL[obs_of(clrx, clry, k)];
    return SUCCESS;
}
int auto_ts_fit_sccd(int *clrx, float **clry, int b, int lb, int start, int end, int df, float **coefs, float *rmse, float **v_dif)
{
    int k;
    vh_assert((b >= 0) & (b < S) & (b == lb), "band of a fit");
    vh_assert((start >= 0) & (end - start + 1 >= LASSO_MIN), "a model is fitted to too few observations");
    float l = LV[obs_of(clrx, clry, (start + end) / 2)];
    for (k = start; k <= end; k++) {
        if (k > start) vh_assert(clrx[k - 1] < clrx[k], "dates of a fit are not increasing");
        v_dif[b][k - start] = k == start || k == end ? (LV[obs_of(clrx, clry, k)] - l) * sc(b) : 0;
    }
    coefs[b][0] = l; coefs[b][1] = 0; coefs[b][2] = end - start + 1 + 64 * (clrx[end] - D0); coefs[b][3] = 0; coefs[b][4] = clrx[start] - D0; coefs[b][5] = b;
    *rmse = snow ? h_of(b) : RM(b);       /* the snow procedure hands the rmse itself to the filter */
    return SUCCESS;
}
static float predicted(int d, float *c, int b)
{
    int i = obs_at(d);
    vh_assert(i >= 0, "prediction at a date that is no usable observation");
    vh_assert(c[5] == b, "coefficients of another band");
    return B[b][i] - (LV[i] - c[0]) * sc(b);
}
int auto_ts_predict_float(int *clrx, float **coefs, int df, int b, int start, int end, float *y)
{
    vh_assert(start >= 0, "prediction before the series");
    for (int k = start; k <= end; k++) y[k - start] = predicted(clrx[k], coefs[b], b);
    return SUCCESS;
}
float MeanAngl_float(float **v, int nb, int n)
{
    vh_assert((nb == NUM_LASSO_BANDS) & (n >= 1), "angle over no vector");
    int up = 1, dn = 1;
    for (int k = 0; k < n; k++) for (int b = 0; b < nb; b++) { { float q = v[b][k] - v[0][k]; vh_assert((q < 1e-3f) & (q > -1e-3f), "a change vector mixes observations"); } up &= v[b][k] >= 0; dn &= v[b][k] <= 0; }
    return up | dn ? 0.0f : 100.0f;
}
/* the filter: covariance entry (0,0) is the day it stands at, (1,4) and (5,2) name the band */
static void stands(ssmodel_constants *in, gsl_matrix *p, int b, int day)
{
    vh_assert(gsl_matrix_get(p, 0, 0) == day, "the filter is not at the date of the observation it is given");
    vh_assert((gsl_matrix_get(p, 1, 4) == b + 1) & (gsl_matrix_get(p, 5, 2) == 100 + b) & (gsl_matrix_get(p, 4, 1) == 7), "covariance of another band or element");
    vh_assert(in->H == h_of(b), "measurement variance of another band");
    vh_assert(in->m == DEFAULT_N_STATE, "state-space constants are not set up");
}
int step1_ssm_initialize(ssmodel_constants *in, int *clrx, float *clry, int a, int e, float **c, gsl_matrix *p, int b, unsigned int *sum, int n_clr)
{
    vh_assert((a >= 0) & (e < n_clr) & (FITN(c[b][2]) == e - a + 1 + (snow ? DEFAULT_CONSE_SCCD : 0)) & (c[b][4] == clrx[a] - D0) & (c[b][5] == b), "the filter starts from a model of another window or band");
    vh_assert(in->H == h_of(b), "measurement variance of another band");
    for (int k = a; k <= e; k++) { int i = obs_at(clrx[k]); vh_assert(i >= 0 && clry[k] == B[b][i], "the filter is given readings of another band"); }
    gsl_matrix_set(p, 0, 0, clrx[e + 1 < n_clr ? e + 1 : e] - D0); gsl_matrix_set(p, 1, 4, b + 1); gsl_matrix_set(p, 5, 2, 100 + b); gsl_matrix_set(p, 4, 1, 7);
    *sum = SUM0(b, e - a + 1);
    return SUCCESS;
}
int KF_ts_predict_conse(ssmodel_constants *in, int *clrx, gsl_matrix *p, float **c, int from, int to, int b, int cur, float *y, float *f, bool out)
{
    vh_assert((from == to) & (from >= 0), "prediction window");
    if (!snow) stands(in, p, b, clrx[cur] - D0);
    y[0] = predicted(clrx[from], c[b], b); f[0] = 0;
    return SUCCESS;
}
int KF_ts_filter_regular(ssmodel_constants *in, int *clrx, float *clry, gsl_matrix *p, float **c, int cur, int b, double *vt, bool steady)
{
    int i = obs_at(clrx[cur]);
    vh_assert(i >= 0 && clry[cur] == B[b][i], "the filter is given a reading of another observation or band");
    vh_assert(c[b][5] == b, "coefficients of another band");
    stands(in, p, b, clrx[cur] - D0);
    vh_assert(clrx[cur + 1] > clrx[cur], "the filter moves backwards");
    gsl_matrix_set(p, 0, 0, clrx[cur + 1] - D0);
    c[b][3] += 1;
    *vt = VT(b);
    return SUCCESS;
}
int KF_ts_filter_falsechange(ssmodel_constants *in, int *clrx, gsl_matrix *p, int cur)
{
    vh_assert(clrx[cur + 1] > clrx[cur], "the filter moves backwards");
    vh_assert(gsl_matrix_get(p, 0, 0) == clrx[cur] - D0, "the filter is not at the date of the observation it skips");
    gsl_matrix_set(p, 0, 0, clrx[cur + 1] - D0);
    return SUCCESS;
}
struct run { Output_sccd *rec; int nfc, mode, nq, fed; output_nrtmodel *m; output_nrtqueue *q; short mr[S]; };
static void fresh(struct run *r)
{
    r->rec = calloc(NUM_FC, sizeof *r->rec); r->m = calloc(1, sizeof *r->m); r->q = calloc(MAX_OBS_QUEUE, sizeof *r->q);
    r->nfc = r->mode = r->nq = r->fed = n_vario = 0; memset(r->mr, 0, sizeof r->mr);
}
static void call(struct run *r, int to)
{
    long *x[9];
    short mr[S];
    memcpy(mr, r->mr, sizeof mr);
    if (!r->mode) n_vario = 0;
    int a = r->fed, n = to - a, k, i, had = r->nfc, from = r->mode;
    for (k = 0; k < 9; k++) { x[k] = malloc((n ? n : 1) * sizeof(long)); for (i = 0; i < n; i++) x[k][i] = k < NB ? B[k][a + i] : k == NB ? QA[a + i] : D[a + i]; }
    Output_sccd_pinpoint *pp = 0; int npp = 0;
#ifdef PINPOINT
    pp = malloc(NUM_FC * sizeof *pp);
#endif
    int st = sccd(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], n, TCG, &r->nfc, &r->mode, r->rec, r->m, &r->nq, r->q, r->mr, CONSE, C2, pp != 0, pp, &npp, GATE, GATE);
#ifdef FULL
    if (st != SUCCESS) { vh_assert((r->nfc == NUM_FC) | (CONSE > DEFAULT_CONSE_SCCD), "detection fails on a valid series"); vh_reach("full"); vh_stop(); }
#endif
    vh_assert(st == SUCCESS, "detection fails on a valid series");
    for (k = 0; k < 9; k++) free(x[k]);
    if (from) for (k = 0; k < S; k++) vh_assert(r->mr[k] == mr[k], "an update changes the minimum rmse the pixel was set up with");
    if (r->mode && !snow) for (k = 0; k < S; k++) vh_assert(r->mr[k] == MR(k), "the minimum rmse is not that of the band");
#ifdef PINPOINT
    vh_assert((npp >= 0) & (npp <= NUM_FC), "more pinpoint records than the array holds");
    for (int j = 0; j < npp; j++) {
        int prev = -1, f = obs_at(pp[j].t_break);
        vh_assert(f >= 0, "a pinpoint break is at no usable observation");
        if (j) vh_assert(pp[j].t_break > pp[j - 1].t_break, "pinpoint breaks are out of order");
        for (k = 0; k < DEFAULT_CONSE_SCCD; k++) {
            int d = pp[j].obs_date_since1982[k];
            if (k >= CONSE && d == 0) continue;
            i = obs_at(d + ORDINAL_LANDSAT4_LAUNCH);
            vh_assert((i > prev) & (k || i == f), "a pinpoint snapshot does not hold the observations from the break on");
            for (int b = 0; b < S; b++) vh_assert((pp[j].obs[b][k] == B[b][i]) & (pp[j].coefs[b][5] == b), "a pinpoint snapshot mixes observations or bands");
            prev = i;
        }
        float lo = 1e9;
        for (k = 0; k < CONSE; k++) {
            i = obs_at(pp[j].obs_date_since1982[k] + ORDINAL_LANDSAT4_LAUNCH);
            float e = LV[i] - pp[j].coefs[0][0]; e = e * e * NUM_LASSO_BANDS;
            if (k < PINPOINT_CONSE) vh_assert(e > GATE, "a pinpoint break starts at an observation that does not deviate");
            if (e < lo) lo = e;
            vh_assert(pp[j].norm_cm[k] == (short)(lo * 100 > MAX_SHORT ? MAX_SHORT : lo * 100), "the change magnitude of a pinpoint break is not that of its observations");
        }
        vh_reach("pinpoint");
    }
    {   /* of every year the strongest run of deviations is kept (while one model is followed) */
        int u[NOBS], nu = 0, j;
        for (i = 0; i < to; i++) if (usab[i]) u[nu++] = i;
#define YEAR(d) ((int)(((d) - ORDINAL_DATE_1982_1_1) / AVE_DAYS_IN_A_YEAR))
        for (j = 1; j < npp; j++) vh_assert(YEAR(pp[j].t_break) > YEAR(pp[j - 1].t_break), "two pinpoint breaks in one year");
        if ((r->mode == 1) & (r->nfc == 0) & (npp < NUM_FC))
            for (j = 0; j + CONSE < nu; j++) if (D[u[j]] > D0 + FITEND(r->m->nrt_coefs[0][2])) {
                float lo = 1e9, l3 = 1e9;
                for (k = 0; k < CONSE; k++) { float e = LV[u[j + k]] - r->m->nrt_coefs[0][0]; e = e * e * NUM_LASSO_BANDS; if (e < lo) lo = e; if (k < PINPOINT_CONSE) l3 = lo; }
                if (l3 < GATE || lo <= 0) continue;
                for (k = 0; k < npp && YEAR(pp[k].t_break) != YEAR(D[u[j]]); k++);
                vh_assert(k < npp && pp[k].norm_cm[CONSE - 1] >= (short)(lo * 100 > MAX_SHORT ? MAX_SHORT : lo * 100), "the strongest run of deviations of a year has no snapshot");
                vh_reach("kept");
            }
    }
    free(pp);
#endif
    if ((r->nfc > had) & ((from == 1) | (from == 2) | (from == 5))) { vh_assert(r->mode == 5, "a break found in an update is not announced"); vh_reach("announced"); }
    for (i = a; i < to && !usab[i]; i++);
    if ((from == 5) & (i < to) & (r->nfc == had) & (r->mode != 1)) {
        int last[CONSE], m = 0;
        for (i = to - 1; i >= 0 && m < CONSE; i--) if (usab[i]) last[m++] = i;
        vh_assert(m == CONSE && (r->mode == (D[last[CONSE - 1]] - r->rec[had - 1].t_break < STATUS_DELEY_DAYS ? 5 : 12)), "the announcement of a break lasts until the observations left to confirm start 15 days after it");
    }
    r->fed = to;
}
/* observations after the fit that are no outliers */
static int kept(int *u, int n, float l, int end)
{
    int c = 0;
    for (int k = 0; k < n; k++) if (D[u[k]] > D0 + end) { float e = LV[u[k]] - l; c += !(e * e * NUM_LASSO_BANDS > T_MAX_CG_SCCD); }
    return c;
}
static float median_dev(int *u, float l)
{
    float v[CONSE], t;
    for (int k = 0; k < CONSE; k++) { v[k] = LV[u[k]] - l; for (int j = k; j && v[j - 1] > v[j]; j--) { t = v[j]; v[j] = v[j - 1]; v[j - 1] = t; } }
    return CONSE % 2 ? v[CONSE / 2] : (v[CONSE / 2 - 1] + v[CONSE / 2]) / 2;
}
/* the observations from here on confirm a change */
static int confirmed(int *u, float l)
{
    int up = 1, dn = 1;
    for (int k = 0; k < CONSE; k++) { float e = LV[u[k]] - l; if (e * e * NUM_LASSO_BANDS < TCG) return 0; up &= e > 0; dn &= e < 0; }
    return up | dn;
}
/* the saved state after a call stands for the observations given so far */
static void check(struct run *r)
{
    int i, k, b, j, u[NOBS], nu = 0;
    for (i = 0; i < r->fed; i++) if (usab[i]) u[nu++] = i;
#ifdef DBG
    printf("fed %d mode %d nfc %d queue %d model", r->fed, r->mode, r->nfc, r->nq);
    for (k = 0; k < DEFAULT_CONSE_SCCD; k++) printf(" %d", r->m->obs_date_since1982[k] ? r->m->obs_date_since1982[k] + ORDINAL_LANDSAT4_LAUNCH - D0 : 0);
    printf(" num_obs %d cm %d %d %d\n", r->m->num_obs, r->m->norm_cm, r->m->cm_angle, r->m->conse_last);
    for (k = 0; k < r->nq && r->mode != 1; k++) printf(" q%d", r->q[k].clrx_since1982 + ORDINAL_LANDSAT4_LAUNCH - D0);
    for (k = 0; k < r->nfc; k++) printf(" rec %d..%d n %d mag %g coefs %g %g %g %g\n", r->rec[k].t_start - D0, r->rec[k].t_break - D0, r->rec[k].num_obs, r->rec[k].magnitude[0], r->rec[k].coefs[0][0], r->rec[k].coefs[0][2], r->rec[k].coefs[0][3], r->rec[k].coefs[0][4]);
#endif
    int md = r->mode, std = (md == 1) | (md == 11), que = (md == 2) | (md == 12) | (md == 5);
    vh_assert(std | que | (md == 0) | (md == 3) | (md == 4), "unknown mode");
    vh_assert(md != 2, "a queue whose predictability was never confirmed passes as confirmed");
    vh_assert((md == 0) == (nu == 0 && !snow), "void mode exactly while there is no usable observation");
    vh_assert(snow == ((md == 3) | (md == 4)), "snow mode");
    vh_assert((r->nfc >= 0) & (r->nfc <= NUM_FC), "more records than the result array holds");
    for (j = 0; j < r->nfc; j++) {
        Output_sccd *x = &r->rec[j];
        vh_assert((obs_at(x->t_start) >= 0) & (obs_at(x->t_break) >= 0) & (x->t_start < x->t_break), "a record starts or breaks at no usable observation");
        if (j) vh_assert(x->t_start >= x[-1].t_break, "records overlap or are out of order");
        int n = FITN(x->coefs[0][2]), c = (int)x->coefs[0][3], early = x->num_obs != n + c;
        vh_assert(x->num_obs > 0, "observations of a record");
        if (early) vh_assert((j == 0) & (c == 0), "number of observations of a record");
        else vh_assert(x->t_start - D0 == x->coefs[0][4], "a record does not start where its model starts");
        for (b = 0; b < S; b++) {
            vh_assert((x->coefs[b][0] == x->coefs[0][0]) & (x->coefs[b][2] == x->coefs[0][2]) & (x->coefs[b][3] == c) & (x->coefs[b][4] == x->coefs[0][4]) & (x->coefs[b][5] == b), "bands of a record come from different models");
            float rm = early ? h_of(b) : (SUM0(b, n) + VT(b) * VT(b) * c) / (float)(x->num_obs - SCCD_NUM_C);
            float dr = x->rmse[b] * x->rmse[b] - rm;
            vh_assert((dr < 0.01f) & (dr > -0.01f), "rmse of a record");
            vh_assert(x->magnitude[b] * sc(0) == x->magnitude[0] * sc(b), "magnitudes of the bands come from different observations");
        }
        vh_assert(x->magnitude[0] * x->magnitude[0] * NUM_LASSO_BANDS > TCG * sc(0) * sc(0), "the magnitude of a break is that of its deviating observations");
        if (!early) {
            for (i = 0; D[u[i]] != x->t_break; i++);
            vh_assert(c == kept(u, i, x->coefs[0][0], FITEND(x->coefs[0][2])), "the filter was given other observations than those which are no outliers");
            vh_assert(i + CONSE <= nu, "a break without enough observations to confirm it");
            vh_assert(confirmed(u + i, x->coefs[0][0]), "the observations from a break on do not all deviate in one direction");
            vh_assert(x->magnitude[0] == median_dev(u + i, x->coefs[0][0]) * sc(0), "the magnitude of a break is not the median of its deviating observations");
        }
        if (!early) { i = obs_at(x->t_break); float e = LV[i] - x->coefs[0][0]; vh_assert(e * e * NUM_LASSO_BANDS > TCG, "the observation at a break does not deviate from the model"); }
        vh_reach(early ? "early record" : "record");
    }
    if (std | (md == 3) | (md == 5)) {
        output_nrtmodel *m = r->m;
        int keep = md == 3 ? DEFAULT_CONSE_SCCD : CONSE, n = FITN(m->nrt_coefs[0][2]), c = (int)m->nrt_coefs[0][3];
        for (k = 0; k < DEFAULT_CONSE_SCCD; k++) {
            if (k < keep) {
                i = obs_at(m->obs_date_since1982[k] + ORDINAL_LANDSAT4_LAUNCH);
                vh_assert(i >= 0, "the model keeps a date that is no usable observation");
                if (md != 5) vh_assert((nu >= keep) && (i == u[nu - keep + k]), "the model does not keep the last observations");
                else if (k == 0) vh_assert((r->nfc > 0) && (D[i] == r->rec[r->nfc - 1].t_break), "the model of a broken pixel does not keep the observations from the break on");
                for (b = 0; b < S; b++) vh_assert(m->obs[b][k] == B[b][i], "the model keeps readings of another observation");
            } else {
                vh_assert(m->obs_date_since1982[k] == 0, "an unused slot of the model carries a date");
                for (b = 0; b < S; b++) vh_assert(m->obs[b][k] == 0, "an unused slot of the model carries a reading");
            }
        }
        vh_assert(m->num_obs == n + c - (md == 3 ? DEFAULT_CONSE_SCCD : 0), "number of observations of the model");
        vh_assert(m->t_start_since1982 + ORDINAL_LANDSAT4_LAUNCH - D0 == (int)m->nrt_coefs[0][4], "the model starts at another observation");
        for (b = 0; b < S; b++) {
            vh_assert((m->nrt_coefs[b][0] == m->nrt_coefs[0][0]) & (m->nrt_coefs[b][2] == m->nrt_coefs[0][2]) & (m->nrt_coefs[b][3] == c) & (m->nrt_coefs[b][4] == m->nrt_coefs[0][4]) & (m->nrt_coefs[b][5] == b), "coefficients of another model or band are saved");
            vh_assert(m->rmse_sum[b] == SUM0(b, n) + (unsigned)(VT(b) * VT(b)) * c, "the sum of squared residuals is not that of the band");
            vh_assert(m->H[b] == h_of(b), "measurement variance of another band is saved");
            vh_assert((m->covariance[b][1 * DEFAULT_N_STATE + 4] == b + 1) & (m->covariance[b][5 * DEFAULT_N_STATE + 2] == 100 + b) & (m->covariance[b][4 * DEFAULT_N_STATE + 1] == 7), "covariance of another band or element is saved");
            if (md != 5) vh_assert(m->covariance[b][0] == m->obs_date_since1982[0] + ORDINAL_LANDSAT4_LAUNCH - D0, "the saved filter does not stand at the first kept observation");
        }
        if (std && !snow) for (k = 0; k + CONSE < nu; k++)
            if (D[u[k]] > D0 + FITEND(m->nrt_coefs[0][2])) vh_assert(!confirmed(u + k, m->nrt_coefs[0][0]), "a confirmed change of a monitored pixel is not reported");
        if (std) vh_assert(c == kept(u, nu - CONSE, m->nrt_coefs[0][0], FITEND(m->nrt_coefs[0][2])), "the filter is given other observations than those which are no outliers");
#ifdef BIGR
        if (0) {
#else
        if (std) {
#endif
            float lo = 1e9; int cl = 0, up = 1, dn = 1;
            for (k = 0; k < CONSE; k++) { float e = LV[u[nu - 1 - k]] - m->nrt_coefs[0][0], q = e * e * NUM_LASSO_BANDS; if (q <= GATE) break; cl++; if (q < lo) lo = q; up &= e >= 0; dn &= e <= 0; }
            vh_assert(m->conse_last == cl, "the number of newest deviating observations");
            vh_assert(m->norm_cm == (cl ? (short)(lo * 100 > MAX_SHORT ? MAX_SHORT : lo * 100) : NA_VALUE), "the change magnitude of the newest observations");
            vh_assert(m->cm_angle == (cl ? up | dn ? 0 : 10000 : NA_VALUE), "the change angle of the newest observations");
            vh_reach(cl ? "deviating" : "monitored");
        }
        if (md == 5) vh_assert(m->conse_last == CONSE, "the number of deviating observations of a break");
        if (md == 5) vh_reach("just broken");
        if (md == 3) vh_reach("snow model");
    }
    if (que | (md == 4)) {
        int prev = -1;
        vh_assert((r->nq >= 0) & (r->nq <= MAX_OBS_QUEUE), "the queue holds more observations than it has room for");
        for (k = 0; k < r->nq; k++) {
            i = obs_at(r->q[k].clrx_since1982 + ORDINAL_LANDSAT4_LAUNCH);
            vh_assert((i > prev) & (i < r->fed), "the queue does not hold usable observations in order");
            for (b = 0; b < S; b++) vh_assert(r->q[k].clry[b] == B[b][i], "the queue mixes observations");
            prev = i;
        }
        vh_assert((nu == 0) || (prev == u[nu - 1]), "the newest observation is missing from the queue");
        if (r->nfc && r->nq && r->nq < MAX_OBS_QUEUE) vh_assert(r->q[0].clrx_since1982 + ORDINAL_LANDSAT4_LAUNCH >= r->rec[r->nfc - 1].t_break, "the queue reaches behind the last break");
#ifdef NOREMOVE
        { int first = 0; while (r->nfc && first < nu && D[u[first]] < r->rec[r->nfc - 1].t_break) first++;
          vh_assert(r->nq == (nu - first > MAX_OBS_QUEUE ? MAX_OBS_QUEUE : nu - first), "the queue does not hold every observation since the last break"); }
#endif
        vh_reach(md == 4 ? "snow queue" : r->nfc ? "queue after a break" : "queue");
    }
}
#if defined NOREMOVE && !defined NOSAME
#define SAME
#endif
static void same(struct run *r, struct run *f, int exact)
{
    int j, k, b;
    vh_assert(r->nfc == f->nfc, "number of breaks");
    for (j = 0; j < r->nfc; j++) {
        vh_assert((r->rec[j].t_start == f->rec[j].t_start) & (r->rec[j].t_break == f->rec[j].t_break) & (r->rec[j].num_obs == f->rec[j].num_obs), "dates or size of a segment");
        for (b = 0; b < S; b++) {
            for (k = 0; k < SCCD_NUM_C; k++) vh_assert(r->rec[j].coefs[b][k] == f->rec[j].coefs[b][k], "coefficients of a segment");
            vh_assert((r->rec[j].rmse[b] == f->rec[j].rmse[b]) & (r->rec[j].magnitude[b] == f->rec[j].magnitude[b]), "rmse or magnitude of a segment");
        }
    }
    int qa = (r->mode == 2) | (r->mode == 5) | (r->mode == 12), qb = (f->mode == 2) | (f->mode == 5) | (f->mode == 12);
    if (!exact && r->mode == 5 && f->mode == 1) { vh_reach("alert"); return; }     /* the break is announced first, the queue (checked above) becomes the model with the next update */
    vh_assert(exact ? r->mode == f->mode : qa == qb && (qa || r->mode == f->mode), "mode of the pixel");
    if (qa | (r->mode == 4)) {
        vh_assert(r->nq == f->nq, "length of the queue");
        for (k = 0; k < r->nq; k++) { vh_assert(r->q[k].clrx_since1982 == f->q[k].clrx_since1982, "dates of the queue"); for (b = 0; b < S; b++) vh_assert(r->q[k].clry[b] == f->q[k].clry[b], "readings of the queue"); }
    } else if (r->mode) {
        vh_assert((r->m->t_start_since1982 == f->m->t_start_since1982) & (r->m->num_obs == f->m->num_obs) & (r->m->norm_cm == f->m->norm_cm) & (r->m->cm_angle == f->m->cm_angle) & (r->m->conse_last == f->m->conse_last), "model");
        for (k = 0; k < DEFAULT_CONSE_SCCD; k++) { vh_assert(r->m->obs_date_since1982[k] == f->m->obs_date_since1982[k], "dates of the model"); for (b = 0; b < S; b++) vh_assert(r->m->obs[b][k] == f->m->obs[b][k], "readings of the model"); }
        for (b = 0; b < S; b++) {
            vh_assert((r->m->H[b] == f->m->H[b]) & (r->m->rmse_sum[b] == f->m->rmse_sum[b]), "model of a band");
            for (k = 0; k < DEFAULT_N_STATE * DEFAULT_N_STATE; k++) vh_assert(r->m->covariance[b][k] == f->m->covariance[b][k], "covariance");
            for (k = 0; k < SCCD_NUM_C; k++) vh_assert(r->m->nrt_coefs[b][k] == f->m->nrt_coefs[b][k], "coefficients of the model");
        }
    }
}
int main(void)
{
    int i, k;
    for (i = 0; i < NOBS; i++) {
        D[i] = D0 + GAP * i;
        QA[i] = i % 2;
#ifdef SNOW
        QA[i] = 3;
#endif
        for (k = 0; k < NB; k++) B[k][i] = (k == NB - 1 ? 2800 : 300 * (k + 1)) + 7 * i;
        LV[i] = 0; FL[i] = 0;
    }
#ifdef SNOW
    snow = 1;
#endif
#ifndef NOC2
    C2 = 1;
#endif
#ifdef S_GAP
    { static const int w[] = S_GAP; VH_TAB(TG, GAPS); for (k = 0; k < (int)(sizeof w / sizeof *w); k++) { int g = (int)vh_fork((int)vh_pickd(TG)); for (i = w[k]; i < NOBS; i++) D[i] += g; } }
#endif
#ifdef S_STEP
    { static const int w[] = S_STEP; VH_TAB(TL, LEVELS); int s = vh_range(w[0], w[1]); float l = vh_pickf(TL); for (i = w[0]; i < NOBS; i++) LV[i] = i >= s ? l : LV[i]; }
#endif
#ifdef S_LEVEL
    { static const int w[] = S_LEVEL; VH_TAB(TL, LEVELS); for (k = 0; k < (int)(sizeof w / sizeof *w); k++) LV[w[k]] = vh_pickf(TL); }
#endif
#ifdef S_FLAG
    { static const int w[] = S_FLAG; for (k = 0; k < (int)(sizeof w / sizeof *w); k++) FL[w[k]] = vh_range(0, 1); }
#endif
#ifdef S_BAD
    { static const int w[] = S_BAD; VH_TAB(TQ, 0, 4, 2, 1); for (k = 0; k < (int)(sizeof w / sizeof *w); k++) { 
#ifndef QAFIX
      QA[w[k]] = (long)vh_pickd(TQ);
#endif
#ifndef SNOW
      B[(1 + k) % NB][w[k]] += vh_range(0, 1) * 20000;
#endif
    } }
#endif
    int prev = -1;
    for (i = 0; i < NOBS; i++) {
        usab[i] = snow ? (QA[i] < 2) | (QA[i] == 3) : valid_obs(i) & (QA[i] < 2);
        if (usab[i] && prev >= 0 && D[prev] == D[i]) usab[i] = 0;
        if (usab[i]) prev = i;
    }
    struct run r;
    fresh(&r);
#ifdef CUTS                             /* first call up to a symbolic observation, then updates */
    { static const int w[] = CUTS; for (k = 0; k + 1 < (int)(sizeof w / sizeof *w); k += 2) { int c = vh_fork(vh_range(w[k], w[k + 1])); if (c < r.fed) vh_stop(); call(&r, c); check(&r); } }
#endif
#ifdef STEPS                            /* from here on one observation at a time */
    while (r.fed < NOBS) {
#else
    {
#endif
#ifdef STEPS
        call(&r, r.fed + 1 > NOBS ? NOBS : r.fed + 1);
#else
        call(&r, NOBS);
#endif
        check(&r);
    }
#ifdef SAME
    {
        struct run f;
        fresh(&f);
        call(&f, NOBS); check(&f);
        same(&r, &f, 0);
    }
#endif
#ifdef AGAIN                            /* nothing new: nothing changes */
    {
        struct run b = r;
        b.rec = malloc(NUM_FC * sizeof *b.rec); memcpy(b.rec, r.rec, NUM_FC * sizeof *b.rec);
        b.m = malloc(sizeof *b.m); memcpy(b.m, r.m, sizeof *b.m);
        b.q = malloc(MAX_OBS_QUEUE * sizeof *b.q); memcpy(b.q, r.q, MAX_OBS_QUEUE * sizeof *b.q);
        call(&r, r.fed);
        same(&r, &b, 1);
        vh_reach("again");
    }
#endif
#ifdef STEPCHK
    {   /* a lasting change is reported once it is confirmed, at the first changed observation */
        int s = -1, left = 0;
        for (i = 0; i < NOBS; i++) if (usab[i]) { if (s < 0 && LV[i] != 0) s = i; if (s >= 0) left++; }
        if (s >= 0 && left > CONSE) { vh_assert((r.nfc == 1) && (r.rec[0].t_break == D[s]) && (r.rec[0].t_start == D[0]) && (r.rec[0].magnitude[0] == LV[s] * sc(0)), "a lasting change is not reported at the first changed observation"); vh_reach("step"); }
        else vh_assert(r.nfc == 0, "a break without a confirmed change");
    }
#endif
    vh_reach("done");
    return 0;
}
