/* entry checks of cold() and of the reconstruction: quality codes and order of dates (C01) */
#include "pix.h"
#include "cold.h"
#ifndef NREC
#define NREC NUM_FC
#endif
#define SENT 77
void elnet_(int *ka, float *parm, int *no, int *ni, float *x, float *y, float *w, int *jd, float *vp, int *ne, int *nx, int *nlam,
            float *flmin, float *ulam, float *thr, int *isd, int *lmu, float *a0, float *ca, int *ia, int *nin, float *rsq, float *alm,
            int *nlp, int *jerr)
{
    *lmu = 1; a0[0] = y[0]; nin[0] = 0; *jerr = 0;
}
int main(void)
{
    static Output_t rec[NUM_FC];
    int i, k, nfc = 0, known = 1, sorted = 1;
    memset(rec, SENT, sizeof rec);
    for (i = 0; i < NOBS; i++) {
        D[i] = 735000 + 16 * i;
        QA[i] = i % 2;
        for (k = 0; k < NB - 1; k++) B[k][i] = 300 * (k + 1) + 7 * i;
        B[NB - 1][i] = 2800 + i;
    }
#ifdef WQ
    QA[WQ] = vh_any_int();
#endif
#ifdef WD
    D[WD] = 735000 + vh_range(0, 16 * NOBS);
#endif
    for (i = 0; i < NOBS; i++) { known &= ((QA[i] >= 0) & (QA[i] <= 4)) | (QA[i] == 255); if (i) sorted &= D[i - 1] <= D[i]; }
#ifdef OB
    long br[1] = {0};
    int st = obcold_reconstruction_procedure(B[0], B[1], B[2], B[3], B[4], B[5], B[6], QA, D, NOBS, br, 1, 1, 0, 6, rec, &nfc);
#else
    int st = cold(B[0], B[1], B[2], B[3], B[4], B[5], B[6], QA, D, NOBS, 1, 30.8562, 6, 0, 735000, 0, rec, &nfc, 60, NULL, NULL, 0.0);
#endif
    vh_assert((st == SUCCESS) == (known & sorted), "the call fails exactly when a quality value is unknown or the dates are out of order");
    if (!(known & sorted)) {
        vh_assert(nfc == 0, "a failed call returns records");
        for (k = 0; k < (int)sizeof(Output_t); k++) vh_assert(((unsigned char *)rec)[k] == SENT, "a failed call writes records");
        vh_reach("rejected");
    } else vh_reach("accepted");
    vh_reach("done");
    return 0;
}
