/* cold() on a pixel with fewer clear observations than monitoring needs (C02, and C01 through the same entry) */
#include "pix.h"
#include "cold.h"
#ifndef SYMS                       /* which observations are symbolic */
#define SYMS {2, NOBS - 1}
#endif
#define SENT 77

void elnet_(int *ka, float *parm, int *no, int *ni, float *x, float *y, float *w, int *jd, float *vp, int *ne, int *nx, int *nlam,
            float *flmin, float *ulam, float *thr, int *isd, int *lmu, float *a0, float *ca, int *ia, int *nin, float *rsq, float *alm,
            int *nlp, int *jerr)
{
    unsigned char could[NB];
    vh_assert(*no > 0, "a model is fitted to no observation");
    vh_initialised(x, sizeof(float) * *no, "date column of a regression");
    vh_initialised(y, sizeof(float) * *no, "reflectance column of a regression");
    int ok = 1;
    for (int i = 1; i < *no; i++) ok &= x[i - 1] <= x[i];
    vh_assert(ok, "regression dates are not in time order");
    vh_assert(pix_check_rows(x, y, *no, could), "a fitted (date, reflectance) pair is not one usable observation of the pixel");
    n_fits++;
    *lmu = 1; a0[0] = y[0]; nin[0] = 0; *jerr = 0;
}
int main(void)
{
    static Output_t rec[NUM_FC];
    int i, k, nfc = 0, s, pos = 4321;
    C2 = vh_fork(vh_range(0, 1));
    memset(rec, SENT, sizeof rec);
    for (i = 0; i < NOBS; i++) {
        D[i] = 735000 + 16 * i;
#ifdef SNOW
        QA[i] = i % 5 == 1 ? 0 : 3;
#else
        QA[i] = i % 6 == 1 ? 4 : i % 2;          /* clear and water, some cloud */
#endif
        for (k = 0; k < NB - 1; k++) B[k][i] = 300 * (k + 1) + 7 * i + (i * 5) % 11;
#ifdef NOTHERM                     /* only the last few thermal readings are inside the valid range */
        B[NB - 1][i] = i < NOTHERM ? 1 + i : 2800 + 3 * i;
#else
        B[NB - 1][i] = 2800 + 3 * i;
#endif
#ifdef NVALID
        if (i >= NVALID) B[3][i] = 20000;
#endif
    }
    static const int where[] = SYMS;
    for (s = 0; s < (int)(sizeof where / sizeof where[0]); s++) {
        VH_TAB(TQ, 0, 3, 2, 255);
        i = where[s];
        QA[i] = (long)vh_pickd(TQ);
        if (i % 2 == 0) B[1][i] = vh_range(-100, 10200);
        else B[NB - 1][i] = vh_range(1600, 3600);
        if (i % 2) B[0][i] = vh_range(-400, 10200);
        if (i && vh_range(0, 1)) D[i] = D[i - 1];
    }
    /* documented outcome */
    int clear = 0, snow = 0, expect = 0, used[NOBS], nu = 0, first = -1, last = -1;
    for (i = 0; i < NOBS; i++) { clear += (QA[i] == 0) | (QA[i] == 1); snow += QA[i] == 3; used[i] = 0; }
    float pct = (float)snow / (float)(snow + clear + 0.01);
    if (pct > 0.75) {
        /* permanent snow: clear and snow observations; each band keeps its in-range readings */
        for (i = 0; i < NOBS; i++) { used[i] = (QA[i] == 3) | (QA[i] == 0) | (QA[i] == 1); usable[i] = used[i]; }
        expect = 54;
    } else {
        /* quality flags failed: valid observations, first of each date, green below median + 400 */
        float g[NOBS], md;
        int m = 0;
        long lastd = -1;
        for (i = 0; i < NOBS; i++) {
            if (valid_obs(i) && D[i] != lastd) { used[i] = 1; lastd = D[i]; g[m++] = (float)B[1][i]; }
        }
        for (i = 1; i < m; i++) for (k = i; k > 0; k--) { float a = g[k - 1], b = g[k]; g[k - 1] = a < b ? a : b; g[k] = a < b ? b : a; }
        md = m == 0 ? 0 : m % 2 ? g[m / 2] : (g[m / 2 - 1] + g[m / 2]) / 2;
        for (i = 0; i < NOBS; i++) { if (used[i] && !((float)B[1][i] < md + 400.0f)) used[i] = 0; usable[i] = used[i]; }
        expect = 44;
    }
    for (i = 0; i < NOBS; i++) if (used[i]) { if (first < 0) first = i; last = i; nu++; }
#ifdef OB                           /* the reconstruction falls back in the same way */
    long br[2] = {735000 + vh_fork(vh_range(0, 1)) * 40, 735000 + 500};
    int st = obcold_reconstruction_procedure(B[0], B[1], B[2], B[3], B[4], B[5], B[6], QA, D, NOBS, br, 2, pos, C2, 6, rec, &nfc);
#else
    int st = cold(B[0], B[1], B[2], B[3], B[4], B[5], B[6], QA, D, NOBS, pos, 30.8562, 6, 0, 735000, C2, rec, &nfc, 60, NULL, NULL, 0.0);
#endif
    vh_assert(st == SUCCESS, "detection fails on a valid series");
    if (nu < 12) {
        vh_assert(nfc == 0, "a record is returned although too few observations are usable");
        vh_assert(n_fits == 0, "a model is fitted although too few observations are usable");
        for (k = 0; k < (int)sizeof(Output_t); k++) vh_assert(((unsigned char *)rec)[k] == SENT, "the output array is written without a record");
        vh_reach("too few");
    } else {
        vh_assert(nfc == 1, "exactly one fallback record");
        vh_initialised(&rec[0].t_start, 4, "start date");
        vh_assert(rec[0].t_start == D[first], "the record starts at the first used observation");
        vh_assert(rec[0].t_end == D[last], "the record ends at the last used observation");
        vh_assert(rec[0].t_break == 0 && rec[0].change_prob == 0, "a fallback record has no break");
        vh_assert(rec[0].category == expect, "fallback category");
        vh_assert(rec[0].num_obs == nu, "number of observations used");
        vh_assert(rec[0].pos == pos, "requested position");
        for (k = 0; k < NB; k++) {
            int n = 0, fst = -1;
            for (i = 0; i < NOBS; i++)
                if (used[i]) {
                    float v = reading(k, i);
                    int in = expect == 44 ? 1 : k < NB - 1 ? (v > 0) & (v < 10000) : (v > -9320) & (v < 7070);
                    if (in) { if (fst < 0) fst = i; n++; }
                }
            vh_initialised(rec[0].coefs[k], sizeof rec[0].coefs[k], "coefficients");
            if (n >= 12) vh_assert(rec[0].coefs[k][0] == reading(k, fst), "the intercept of a band is that of its own regression");
            else if (k < NB - 1) vh_assert(rec[0].coefs[k][0] == 10000.0f, "a band without enough readings is marked saturated");
            else vh_assert((rec[0].coefs[k][0] == 0.0f) & (rec[0].rmse[k] == 0.0f), "no thermal model without enough thermal readings");
            vh_assert(rec[0].magnitude[k] == 0.0f, "a fallback record has no magnitude");
        }
        for (k = 0; k < (int)sizeof(Output_t); k++) vh_assert(((unsigned char *)&rec[1])[k] == SENT, "a second record is written");
        vh_reach("record");
    }
    vh_reach("done");
    return 0;
}
