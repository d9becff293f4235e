/* cold() on a monitored pixel, numeric kernels (decided on their own by C08, C13-C15, C17) replaced by an abstract pixel:
 * every observation has a level (how far it is from the others, in units that the change threshold is expressed in) and a
 * screening flag (what the cloud screening thinks of it).  A model's level is that of the middle observation of its window.
 * Constants N_TIMES, MIN/MID/MAX_NUM_C and LASSO_MIN are scaled down (see the job), the segmentation code is the real one. */
#include "pix.h"
#include "cold.h"
#ifndef CONSE
#define CONSE 2
#endif
#ifndef GAP
#define GAP 130
#endif
#ifndef GAPDAYS
#define GAPDAYS 365.25
#endif
#ifndef GAPS
#define GAPS -GAP, 300, -120
#endif
#ifndef LEVELS
#define LEVELS 0, 2, 3
#endif
#ifndef NREC
#define NREC NUM_FC
#endif
#define SENT 77
#define MAXFIT 120
static float LV[NOBS];                  /* level of an observation */
static int FL[NOBS];                    /* the screening would flag it */
static int FITN[MAXFIT], FITDF[MAXFIT], FIT0[MAXFIT], FIT1[MAXFIT], nfit;
static float FITL[MAXFIT];
static int usab[NOBS];

/* the observation a work row holds */
static int obs_of(int *clrx, float **clry, int k)
{
    int i, b;
    for (i = 0; i < NOBS; i++) if (clry[0][k] == (float)B[0][i]) break;
    vh_assert(i < NOBS, "a work row holds no observation of the pixel");
    for (b = 0; b < NB; b++) vh_assert(clry[b][k] == reading(b, i), "a work row mixes observations");
    vh_assert(clrx[k] == D[i], "a work row carries the date of another observation");
    vh_assert(usab[i], "a screened-out observation takes part in change detection");
    return i;
}
static int obs_at(int d) { for (int i = 0; i < NOBS; i++) if (usab[i] && D[i] == d) return i; return -1; }

int adjust_median_variogram(int *clrx, float **array, int n, int a, int e, float *date_vario, float *mx, float *out, int option)
{
    vh_assert(n <= NB, "bands");
    for (int i = 0; i < n; i++) out[i] = 1;
    *date_vario = 16; *mx = 16;
    return SUCCESS;
}
int auto_mask(int *clrx, float **clry, int start, int end, float years, float t_b1, float t_b2, float n_t, int *bl)
{
    vh_assert((start >= 0) & (end >= start), "screening window");
    for (int k = start; k <= end; k++) bl[k - start] = FL[obs_of(clrx, clry, k)];
    return SUCCESS;
}
static int cur = -1, curb;
int auto_ts_fit_float(int *clrx, float **clry, int b, int lb, int start, int end, int df, float **coefs, float *rmse, float **v_dif)
{
    int k, i;
    vh_assert((b >= 0) & (b < NB) & (b == lb), "band of a fit");
    vh_assert((start >= 0) & (end - start + 1 >= LASSO_MIN), "a model is fitted to too few observations");
    vh_assert((df == MIN_NUM_C) | (df == MID_NUM_C) | (df == MAX_NUM_C), "model size");
    if (cur < 0 || b <= curb) {
        vh_assert(nfit < MAXFIT, "table of fits");
        cur = nfit++;
        FITN[cur] = end - start + 1; FITDF[cur] = df; FIT0[cur] = clrx[start]; FIT1[cur] = clrx[end];
        FITL[cur] = LV[obs_of(clrx, clry, (start + end) / 2)];
    }
    curb = b;
    vh_assert((FITN[cur] == end - start + 1) & (FITDF[cur] == df) & (FIT0[cur] == clrx[start]) & (FIT1[cur] == clrx[end]), "bands of one model are fitted to different windows");
    for (k = start; k <= end; k++) {
        i = obs_of(clrx, clry, k);
        v_dif[b][k - start] = 0;
        if (k > start) vh_assert(clrx[k - 1] < clrx[k], "dates of a fit are not increasing");
        if (k == start || k == end) v_dif[b][k - start] = LV[i] - FITL[cur];
    }
    for (k = 0; k < LASSO_COEFFS; k++) coefs[b][k] = 0;
    coefs[b][0] = 32 * cur + FITL[cur];
    *rmse = 1;
    return SUCCESS;
}
int auto_ts_predict_float(int *clrx, float **coefs, int df, int b, int start, int end, float *y)
{
    int k, i;
    for (k = start; k <= end; k++) {
        i = obs_at(clrx[k]);
        vh_assert(i >= 0, "prediction at a date that is no usable observation");
        vh_assert((coefs[b][0] >= 32 * cur - 12) & (coefs[b][0] <= 32 * cur + 12), "prediction from a model that is not the current one");
        y[k - start] = reading(b, i) - (LV[i] - FITL[cur]);
    }
    return SUCCESS;
}
float MeanAngl_float(float **v, int nb, int n)
{
    vh_assert((nb == NUM_LASSO_BANDS) & (n >= 1), "angle over no vector");
    int up = 1, dn = 1;
    for (int k = 0; k < n; k++) for (int b = 0; b < nb; b++) { vh_assert(v[b][k] == v[0][k], "a change vector mixes observations"); up &= v[b][k] >= 0; dn &= v[b][k] <= 0; }
    return up | dn ? 0.0f : 100.0f;
}
int main(void)
{
#ifdef HEAPREC
    Output_t *rec = malloc(NREC * sizeof(Output_t));
#else
    static Output_t rec_[NREC + 2];
    Output_t *rec = rec_;
    memset(rec_, SENT, sizeof rec_);
#endif
    int i, k, r, nfc = 0, pos = 4321, status;
    for (i = 0; i < NOBS; i++) {
        D[i] = 735000 + GAP * i;
        QA[i] = i % 2;
        for (k = 0; k < NB; k++) B[k][i] = (k == NB - 1 ? 2800 : 300 * (k + 1)) + 7 * i;
        LV[i] = 0; FL[i] = 0;
    }
#ifdef S_GAP                        /* an irregular gap before some observations */
    { static const int w[] = S_GAP; VH_TAB(TG, GAPS); for (k = 0; k < (int)(sizeof w / sizeof *w); k++) { int g = (int)vh_fork((int)vh_pickd(TG)); for (i = w[k]; i < NOBS; i++) D[i] += g; } }
#endif
#ifdef S_STEP                       /* every observation from a symbolic one on is at another level */
    { static const int w[] = S_STEP; VH_TAB(TL, LEVELS); int s = vh_range(w[0], w[1]); float l = vh_pickf(TL); for (i = w[0]; i < NOBS; i++) LV[i] = i >= s ? l : LV[i]; }
#endif
#ifdef S_PRE                        /* the observations before a symbolic one are at another level */
    { static const int w[] = S_PRE; VH_TAB(TL, LEVELS); int s = vh_range(w[0], w[1]); float l = vh_pickf(TL); for (i = 0; i < w[1]; i++) LV[i] = i < s ? l * (1 + i / 8.0f) : LV[i]; }
#endif
#ifdef S_LEVEL
    { static const int w[] = S_LEVEL; VH_TAB(TL, LEVELS); for (k = 0; k < (int)(sizeof w / sizeof *w); k++) LV[w[k]] = vh_pickf(TL); }
#endif
#ifdef S_FLAG
    { static const int w[] = S_FLAG; for (k = 0; k < (int)(sizeof w / sizeof *w); k++) FL[w[k]] = vh_range(0, 1); }
#endif
#ifdef S_BAD                        /* quality and validity of some observations */
    { static const int w[] = S_BAD; VH_TAB(TQ, 0, 4, 3); for (k = 0; k < (int)(sizeof w / sizeof *w); k++) { QA[w[k]] = (long)vh_pickd(TQ); B[1 + k % 6][w[k]] += vh_range(0, 1) * 20000; } }
#endif
    int clear = 0, prev = -1, nu = 0;
    for (i = 0; i < NOBS; i++) {
        usab[i] = valid_obs(i) & (QA[i] < 2);
        clear += QA[i] < 2;
        if (usab[i] && prev >= 0 && D[prev] == D[i]) usab[i] = 0;
        if (usab[i]) { prev = i; nu++; }
    }
    vh_assume(clear >= N_TIMES * MAX_NUM_C);
#ifdef CM
    static short cm[CMN + 2], cmd[CMN + 2];
    for (i = 0; i < CMN + 2; i++) { cm[i] = cmd[i] = -9999; }
    int start = CMSTART;
#endif
#ifdef OB
    static long br[NBR], br0[NBR];
#ifdef BREAKRANGE
    for (i = 0; i < NBR; i++) br[i] = br0[i] = 734990 + vh_range(0, BREAKRANGE);
#else
    { VH_TAB(TB, BREAKS); for (i = 0; i < NBR; i++) { long d = (long)vh_fork((int)vh_pickd(TB)); br[i] = br0[i] = d == 0 ? 0 : d + 735000; } }
#endif
    status = obcold_reconstruction_procedure(B[0], B[1], B[2], B[3], B[4], B[5], B[6], QA, D, NOBS, br, NBR, pos, 0, CONSE, rec, &nfc);
#else
    status = cold(B[0], B[1], B[2], B[3], B[4], B[5], B[6], QA, D, NOBS, pos, 15.0863, CONSE,
#ifdef CM
                  1, start, 0, rec, &nfc, CMINT, cm + 1, cmd + 1, GAPDAYS);
#else
                  0, 0, 0, rec, &nfc, 60, NULL, NULL, GAPDAYS);
#endif
#endif
#ifdef DBG
    for (i = 0; i < NOBS; i++) printf("obs %d date %ld usable %d level %g flag %d\n", i, D[i] - 735000, usab[i], LV[i], FL[i]);
    for (i = 0; i < nfit; i++) printf("fit %d window %d..%d n %d df %d level %g\n", i, FIT0[i] - 735000, FIT1[i] - 735000, FITN[i], FITDF[i], FITL[i]);
    for (r = 0; r < nfc; r++) printf("rec %d start %d end %d break %d n %d cat %d prob %d c0 %g mag %g\n", r, rec[r].t_start - 735000, rec[r].t_end - 735000, rec[r].t_break - 735000, rec[r].num_obs, rec[r].category, rec[r].change_prob, rec[r].coefs[0][0], rec[r].magnitude[0]);
#endif
    vh_assert(status == SUCCESS, "detection fails on a valid series");
    vh_assert((nfc >= 0) & (nfc <= NREC), "more records than the result array holds");
    for (r = 0; r < nfc; r++) {
        Output_t *x = &rec[r];
        vh_initialised(x, sizeof *x, "a record");
        vh_assert(x->pos == pos, "requested position");
        vh_assert((x->t_start <= x->t_end) & ((x->t_break == 0) | (x->t_break > x->t_end)), "start <= end < break");
        vh_assert((x->t_start >= D[0]) & (x->t_end <= D[NOBS - 1]) & (x->t_break <= D[NOBS - 1]), "outside the observed dates");
        vh_assert((obs_at(x->t_start) >= 0) & (obs_at(x->t_end) >= 0), "a record starts or ends at a date that is no usable observation");
        if (r > 0) vh_assert((rec[r - 1].t_end < x->t_start) & (rec[r - 1].t_break != 0) & (rec[r - 1].t_break <= x->t_start), "records overlap or are out of order");
        vh_assert((x->change_prob >= 0) & (x->change_prob <= 100), "change probability");
        vh_assert((x->change_prob == 0) == (x->t_break == 0), "a record has a break date exactly when it has a change probability");
        if (r < nfc - 1) vh_assert((x->change_prob == 100) & (obs_at(x->t_break) >= 0), "only the last record may have no confirmed break");
        int f = (int)(x->coefs[0][0] + 12) / 32, kind = x->category / 10;
        vh_assert((f >= 0) & (f < nfit), "coefficients of a record are no fitted model");
        for (k = 0; k < NB; k++) vh_assert((x->coefs[k][0] == x->coefs[0][0]) & (x->rmse[k] == 1), "bands of a record come from different models");
        vh_assert((kind >= 0) & (kind <= 2), "category");
        vh_assert(x->category % 10 == FITDF[f], "the category names the size of the model");
        vh_assert((x->num_obs == FITN[f]) & (x->num_obs > 0), "number of observations of the model");
        vh_assert((FIT0[f] >= x->t_start) & (FIT1[f] <= x->t_end), "the model is fitted to observations outside its segment");
        int in = 0, cnt = 0;
        for (i = 0; i < NOBS; i++) in += usab[i] & (D[i] >= x->t_start) & (D[i] <= x->t_end);
        vh_assert(x->num_obs <= in, "more observations than usable dates in the segment");
#ifdef OB
        vh_assert(kind == 0, "category");
        if (x->t_break) vh_assert(obs_at(x->t_break) >= 0 && x->change_prob == 100, "break date is no usable observation");
        if (x->t_break) { float m = 0; int n = 0, lo = 9, hi = -9; for (i = 0; i < NOBS; i++) if (usab[i] && D[i] >= x->t_break && n < CONSE) { n++; } (void)m; (void)lo; (void)hi; vh_assert(n > 0, "nothing after a break"); }
        if (r == nfc - 1) {
            int lastu = -1, later = 0;
            for (i = 0; i < NOBS; i++) if (usab[i]) lastu = i;
            for (i = 0; i < NBR; i++) later |= br0[i] > x->t_end - GAP;
            vh_assert((x->t_end == D[lastu]) | later, "the last segment does not reach the end of the series though no break is left");
        }
        vh_reach(x->t_break ? "break" : "last");
        continue;
#endif
        if (r > 0 && kind != 1) {
            /* all observations from the break to the end of this record alike: nothing keeps the break out of it */
            int same = 1, b0 = obs_at(rec[r - 1].t_break);
            for (i = 0; i < NOBS; i++) if (usab[i] && D[i] >= rec[r - 1].t_break) same &= (LV[i] == LV[b0]) & (FL[i] == 0);
            if (same) { vh_assert(x->t_start == rec[r - 1].t_break, "a segment does not start at the break before it"); vh_reach("after break"); }
        }
        if (kind == 0 && r == nfc - 1 && x->t_break && x->change_prob < 100) {
            /* a possible break: so many observations on end, up to the last, deviate the same way */
            int n = 0, up = 1, dn = 1, fl = 0, c;
            float q[CONSE], w;
            for (i = 0; i < NOBS; i++) if (usab[i] && D[i] >= x->t_break) { float e = LV[i] - FITL[f]; if (n < CONSE) for (q[n] = e, c = n; c > 0 && q[c - 1] > q[c]; c--) { w = q[c]; q[c] = q[c - 1]; q[c - 1] = w; } n++; fl |= FL[i]; up &= (e * e * 5 > 15.0863f) & (e > 0); dn &= (e * e * 5 > 15.0863f) & (e < 0); }
            vh_assert(x->change_prob == n * 100 / CONSE, "the probability of a possible break is the share of deviating observations");
            vh_assert(up | dn, "the observations of a possible break do not all deviate the same way");
            w = n % 2 ? q[n / 2] : (q[n / 2 - 1] + q[n / 2]) / 2;
            vh_assert(x->magnitude[0] == w, "the magnitude of a possible break is the median of its deviating observations");
            vh_reach("tail");
        }
        if (kind == 1) vh_assert((r == 0) & (x->change_prob == 100), "a start-of-series model is the first record and ends in a break");
        if (kind == 2) vh_assert((r == nfc - 1) & (x->t_break == 0), "an end-of-series model is the last record");
        for (k = 0; k < NB; k++) vh_assert(x->magnitude[k] == x->magnitude[0], "magnitudes of the bands come from different observations");
        if (x->t_break == 0) vh_assert(x->magnitude[0] == 0, "no magnitude without a break");
        else if (kind == 0) vh_assert((x->magnitude[0] >= 2) | (x->magnitude[0] <= -2), "the magnitude of a break is that of its deviating observations");
        if (kind == 0 && x->t_break) {
            /* the observation at the break deviates from the model of the segment */
            i = obs_at(x->t_break);
            float e = LV[i] - FITL[f];
            vh_assert(i >= 0, "break date is no usable observation");
            vh_assert(e * e * 5 > 15.0863f, "the observation at a break does not deviate from the model");
        }
        vh_reach(kind == 1 ? "start record" : kind == 2 ? "end record" : x->change_prob == 100 ? "break" : x->change_prob ? "possible break" : "no break");
    }
#ifndef HEAPREC
    for (k = 0; k < (int)sizeof(Output_t); k++) vh_assert(((unsigned char *)&rec_[NREC])[k] == SENT, "the result array is overrun");
#endif
#ifdef OBCHK
    /* without screening: the segments follow from the break dates */
    {
        long kept[NBR], t;
        int nk = 0, o[NOBS], n = 0, last = 0, e = 0, j;
        for (i = 0; i < NOBS; i++) if (usab[i]) o[n++] = i;
        for (i = 0; i < NBR; i++) for (j = i; j > 0 && br0[j - 1] > br0[j]; j--) { t = br0[j]; br0[j] = br0[j - 1]; br0[j - 1] = t; }
        for (i = 0; i < NBR; i++) if (br0[i] > 0 && (nk == 0 || br0[i] - kept[nk - 1] >= 365.25)) kept[nk++] = br0[i];
        for (j = 0; j <= nk; j++) {
            int at = n;
            if (j < nk) for (i = 0; i < n; i++) if (at == n || labs(D[o[i]] - kept[j]) < labs(D[o[at]] - kept[j])) at = i;
            if (at - last < LASSO_MIN) continue;
            vh_assert(e < nfc, "a break date with enough observations before it does not end a segment");
            vh_assert((rec[e].t_start == D[o[last]]) & (rec[e].t_end == D[o[at - 1]]) & (rec[e].num_obs == at - last), "a segment does not span the observations between two break dates");
            if (j < nk && e < nfc - 1) {
                vh_assert(rec[e].t_break == D[o[at]], "the break is not at the observation nearest to the given date");
                int m = n - at < CONSE ? n - at : CONSE, f = (int)(rec[e].coefs[0][0] + 12) / 32, a, c;
                float q[CONSE], w;
                for (a = 0; a < m; a++) for (q[a] = LV[o[at + a]] - FITL[f], c = a; c > 0 && q[c - 1] > q[c]; c--) { w = q[c]; q[c] = q[c - 1]; q[c - 1] = w; }
                w = m % 2 ? q[m / 2] : (q[m / 2 - 1] + q[m / 2]) / 2;
                for (k = 0; k < NB; k++) vh_assert(rec[e].magnitude[k] == w, "the change magnitude is not the median deviation of the observations after the break");
                vh_reach("magnitude");
            }
            e++; last = at;
        }
        vh_assert(e == nfc, "number of segments");
        vh_assert(nfc == 0 || rec[nfc - 1].t_break == 0, "the last segment has no break");
        vh_reach("ob");
    }
#endif
#ifdef STEPCHK
    /* a stable series that changes level for good: exactly one break, at the first changed observation */
    int s = -1, left = 0, before = 0;
    for (i = 0; i < NOBS; i++) if (usab[i]) {
        if (s < 0 && LV[i] != 0) s = i;
        if (s < 0) before = i; else left++;
    }
    if (s >= 0) {
        vh_assert((nfc >= 1) && (rec[0].t_break == D[s]) && (rec[0].t_end == D[before]) && (rec[0].t_start == D[0]), "a lasting change is not reported at the first changed observation");
        vh_assert(rec[0].change_prob == (left >= CONSE ? 100 : left * 100 / CONSE), "change probability of a lasting change");
        vh_assert(rec[0].magnitude[0] == LV[s], "magnitude of a lasting change");
        for (r = 1; r < nfc; r++) vh_assert(rec[r].t_break == 0, "a break without a change");
        vh_reach("step");
    } else vh_assert((nfc == 1) && (rec[0].t_break == 0), "a stable series has one segment and no break");
#endif
#ifdef PRECHK
    /* a series that was at another level only at its beginning */
    int pre = 0;
    while (pre < NOBS - 1 && LV[pre] != 0) pre++;
    if (pre >= LASSO_MIN) {
        vh_assert((nfc == 2) && (rec[0].category / 10 == 1) && (rec[0].t_break == D[pre]) && (rec[0].t_end == D[pre - 1]) && (rec[0].t_start == D[0]) && (rec[0].num_obs == pre), "a change near the start of the series is not reported at the first observation after it");
        int m = pre < CONSE ? pre : CONSE;
        vh_assert(rec[0].magnitude[0] == -(LV[pre - m + (m - 1) / 2] + LV[pre - m + m / 2]) / 2, "magnitude of a change near the start");
        vh_reach("pre");
    } else vh_assert((nfc == 1) && (rec[0].t_break == 0) && (rec[0].t_start == D[pre]), "a stable series has one segment and no break");
#endif
#ifdef CM
    vh_assert((cm[0] == -9999) & (cm[CMN + 1] == -9999) & (cmd[0] == -9999) & (cmd[CMN + 1] == -9999), "a layer outside the arrays is written");
    for (k = 0; k < CMN; k++) {
        int v = cm[k + 1], dt = cmd[k + 1] + ORDINAL_LANDSAT4_LAUNCH;
        vh_assert((v == -9999) == (cmd[k + 1] == -9999), "a magnitude without date or a date without magnitude");
        if (cmd[k + 1] != -9999) {
            vh_assert(v >= 0, "negative change magnitude");
            vh_assert(obs_at(dt) >= 0, "the date of a layer entry is no usable observation");
            vh_assert((dt >= start + k * CMINT) & (dt < start + (k + 1) * CMINT), "a layer entry carries a date of another interval");
            vh_reach("cm");
        }
#ifdef STEPCHK
        if (s >= 0 && left >= CONSE && D[s] >= start + k * CMINT && D[s] < start + (k + 1) * CMINT) {
            float e = LV[s] * LV[s] * NUM_LASSO_BANDS * 100;
            vh_assert((v == (e > MAX_SHORT ? MAX_SHORT : (int)e)) & (dt == D[s]), "the layer does not hold the change magnitude and date of a lasting change");
            vh_reach("step layer");
        } else vh_assert((v == -9999) | (v == 0), "a magnitude without a change");
#endif
#ifdef PRECHK
        if (pre >= CONSE && D[pre] >= start + k * CMINT && D[pre] < start + (k + 1) * CMINT) {
            float e = LV[pre - CONSE] * LV[pre - CONSE] * NUM_LASSO_BANDS * 100;
            vh_assert((v == (e > MAX_SHORT ? MAX_SHORT : (int)(e + 0.5f))) & (dt == D[pre]), "the layer does not hold the change magnitude and date of a change near the start");
            vh_reach("pre layer");
        } else vh_assert((v == -9999) | (v == 0), "a magnitude without a change");
#endif
    }
#endif
    vh_reach("done");
    return 0;
}
