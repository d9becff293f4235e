/* a pixel series: fixed, pairwise distinguishable observations, some of them replaced by symbolic ones */
#ifndef PIX_H
#define PIX_H
#include "vh.h"
#include <math.h>
#include <stdbool.h>
#include "const.h"
#include "defines.h"
#include "utilities.h"
#include "misc.h"
#include "input.h"
#include "output.h"
#include "2d_array.h"
#ifndef NOBS
#define NOBS 13
#endif
#define NB TOTAL_IMAGE_BANDS
static long D[NOBS], B[NB][NOBS], QA[NOBS];
static int C2;
/* the reading of band k of observation i as the models see it */
static float reading(int k, int i) { return k < NB - 1 ? (float)B[k][i] : C2 ? 0.0f : (float)(B[k][i] * 10 - 27320); }
/* documented validity of observation i */
static int valid_obs(int i)
{
    int ok = (B[0][i] > -200) & (B[0][i] < 10000) & (QA[i] < 255);
    for (int k = 1; k < NB - 1; k++) ok &= (B[k][i] > 0) & (B[k][i] < 10000);
    long t = (C2 | (B[NB - 1][i] == 0)) ? 0 : B[NB - 1][i] * 10 - 27320;
    return ok & (t > -9320) & (t < 7070);
}
/* which observations a regression may see: set by the harness */
static int usable[NOBS];
static int n_fits;
static int fit_bands[64];
static float fit_a0[64];

/* stand-in for the Fortran lasso: a legitimate (strongly penalised) result, the intercept-only model a0 = y[0].
 * It checks what the regression is given: dates in order, and every (date, value) pair is one usable observation's
 * reading of one and the same band. */
static int pix_check_rows(const float *date, const float *y, int no, unsigned char *could)
{
    int any = 0;
    for (int k = 0; k < NB; k++) {
        int all = 1;
        for (int i = 0; i < no; i++) {
            int some = 0;
            for (int j = 0; j < NOBS; j++) some |= usable[j] & ((float)D[j] == date[i]) & (reading(k, j) == y[i]);
            all &= some;
        }
        could[k] = (unsigned char)all;
        any |= all;
    }
    return any;
}
#endif
