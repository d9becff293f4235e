/* kernels: one harness per K_* macro. N is the array length bound. */
#include "vh.h"
#include <math.h>
#include <stdbool.h>
#include "const.h"
#include "defines.h"
#include "utilities.h"
#include "misc.h"
#include "input.h"
#include "output.h"
#include "2d_array.h"
void quick_sort_buf_sensor(int arr[], short int **brr, short int *fmask_buf, short int *sensor_buf, int left, int right);
void quick_sort_int(int arr[], int left, int right);
void quick_sort_long(long arr[], int left, int right);
int matlab_1d_array_norm(float *array, int fit_ct, float *output_norm);
VH_TAB(T4, 0, 1, 2, 3);
VH_TAB(TD8, 1, 2, 3, 8, 16, 17, 365, 5000);
VH_TAB(T8, 0, 1, 2, 3, 4, 5, 6, 7);
VH_TAB(TS8, -3, -2, -1, 0, 1, 2, 3, 5);
VH_TAB(TR8, -1999, 1, 2, 7, 400, 401, 5000, 9999);
#ifdef ANYVAL
#define VALF vh_any_float()
#define VALD vh_any_double()
#else
#define VALF vh_pickf(T8)
#define VALD vh_pickd(T8)
#endif
#ifndef N
#define N 4
#endif

#if defined(VH_REPLAY) || defined(VH_SYM)
int vh_win_l, vh_win_r;
#else
extern int vh_win_l, vh_win_r;
#endif
static int count_i(const int *a, int n, int v) { int c = 0; for (int i = 0; i < n; i++) if (a[i] == v) c++; return c; }
static int count_f(const float *a, int n, float v) { int c = 0; for (int i = 0; i < n; i++) if (a[i] == v) c++; return c; }
static int count_d(const double *a, int n, double v) { int c = 0; for (int i = 0; i < n; i++) if (a[i] == v) c++; return c; }
/* reference order statistic: k-th smallest (0-based) of n values; selections only, no branches on values */
static float kth(const float *a, int n, int k)
{
    float r = -12345.0f;
    for (int i = 0; i < n; i++) {
        int lt = 0, le = 0;
        for (int j = 0; j < n; j++) { lt += a[j] < a[i]; le += a[j] <= a[i]; }
        r = ((lt <= k) & (k < le)) ? a[i] : r;
    }
    return r;
}
static float absdiff(float p, float q) { float d = p - q; return d < 0 ? -d : d; }
static float ref_median(const float *a, int n)
{
    if (n % 2) return kth(a, n, n / 2);
    return (kth(a, n, n / 2 - 1) + kth(a, n, n / 2)) / 2.0f;
}

/* stable-API sorts: result is an ordered permutation; only the requested window is touched */
#if defined(K_SORT_FLOAT) || defined(K_SORT_INT) || defined(K_SORT_DOUBLE) || defined(K_SORT_LONG)
int main(void)
{
    int lo = vh_range(0, N - 1), hi = vh_range(0, N - 1), i;
    vh_assume(lo <= hi);
    vh_win_l = lo; vh_win_r = hi;
#ifdef K_SORT_FLOAT
    float a[N], b[N];
    for (i = 0; i < N; i++) { a[i] = b[i] = VALF; vh_assume(a[i] == a[i]); }
    quick_sort_float(a, lo, hi);
#elif defined(K_SORT_DOUBLE)
    double a[N], b[N];
    for (i = 0; i < N; i++) { a[i] = b[i] = VALD; vh_assume(a[i] == a[i]); }
    quick_sort_double(a, lo, hi);
#elif defined(K_SORT_LONG)
    long a[N], b[N];
    for (i = 0; i < N; i++) a[i] = b[i] = vh_any_int();
    quick_sort_long(a, lo, hi);
#else
    int a[N], b[N];
    for (i = 0; i < N; i++) a[i] = b[i] = vh_any_int();
    quick_sort_int(a, lo, hi);
#endif
    for (i = 0; i < N; i++) {
        if (i < lo || i > hi) vh_assert(a[i] == b[i], "an element outside the sorted window changed");
        if (i > lo && i <= hi) vh_assert(a[i - 1] <= a[i], "the window is not ascending after the sort");
    }
    int k = vh_range(0, N - 1), c0 = 0, c1 = 0;
    for (i = 0; i < N; i++) { c0 += a[i] == b[k]; c1 += b[i] == b[k]; }
    vh_assert(c0 == c1, "the sort is not a permutation of its input");
    vh_reach("sort done");
    return 0;
}
#endif

#ifdef K_SORT_INDEX
int main(void)
{
    int a[N], b[N], ix[N], i;
    int n = vh_range(1, N);
    for (i = 0; i < N; i++) { a[i] = b[i] = vh_any_int(); ix[i] = i; }
#ifdef DISTINCT
    for (i = 0; i < N; i++) for (int j = 0; j < i; j++) vh_assume(a[i] != a[j]);
#endif
    vh_win_l = 0; vh_win_r = n - 1;
    quick_sort_index(a, ix, 0, n - 1);
    for (i = 0; i < N; i++) {
        vh_assert(ix[i] >= 0 && ix[i] < N, "index out of range");
        vh_assert(a[i] == b[ix[i]], "a key was separated from its index");
        if (i > 0 && i < n) vh_assert(a[i - 1] <= a[i], "keys not ascending");
        if (i >= n) vh_assert(ix[i] == i, "element outside the window moved");
    }
    int k = vh_range(0, N - 1);
    vh_assert(count_i(ix, N, k) == 1, "index array is not a permutation");
    vh_reach("sort done");
    return 0;
}
#endif

#if defined(K_SORT_2D_FLOAT) || defined(K_SORT_2D_DOUBLE)
#ifdef K_SORT_2D_FLOAT
#define T float
#define ANY() VALF
#define SORT quick_sort_2d_float
#else
#define T double
#define ANY() VALD
#define SORT quick_sort_2d_double
#endif
#define NB 5
int main(void)
{
    T a[N], b[N], rows[NB][N], *br[NB];
    int n = vh_range(1, N), nb = vh_range(1, NB), i, j;
    for (i = 0; i < N; i++) { a[i] = b[i] = ANY(); vh_assume(a[i] == a[i]); }
    for (j = 0; j < NB; j++) { br[j] = rows[j]; for (i = 0; i < N; i++) rows[j][i] = (T)(100 * j + i); }
    vh_win_l = 0; vh_win_r = n - 1;
    SORT(a, br, 0, n - 1, nb);
    for (i = 0; i < N; i++) {
        if (i > 0 && i < n) vh_assert(a[i - 1] <= a[i], "keys not ascending");
        /* band 0 carries the original position: every band must have moved the same way as its key */
        int src = (int)rows[0][i];
        vh_assert(src >= 0 && src < N && a[i] == b[src], "band value separated from its key");
        for (j = 1; j < NB; j++)
            if (j < nb) vh_assert(rows[j][i] == (T)(100 * j + src), "bands of one observation were separated");
            else vh_assert(rows[j][i] == (T)(100 * j + i), "a band beyond band_num was touched");
        for (j = 0; j < i; j++) vh_assert((int)rows[0][j] != src, "an observation was duplicated");
    }
    vh_reach("sort done");
    return 0;
}
#endif

#ifdef K_SORT_BUF
int main(void)
{
    int t[N], t0[N], i, k;
    short q[N], s[N], bands[TOTAL_IMAGE_BANDS][N], *bp[TOTAL_IMAGE_BANDS];
    int n = vh_range(1, N);
    for (i = 0; i < N; i++) { t[i] = t0[i] = vh_any_int(); q[i] = (short)i; s[i] = (short)(50 + i); }
    for (k = 0; k < TOTAL_IMAGE_BANDS; k++) { bp[k] = bands[k]; for (i = 0; i < N; i++) bands[k][i] = (short)(100 * k + i); }
    vh_win_l = 0; vh_win_r = n - 1;
#ifdef SENSOR
    quick_sort_buf_sensor(t, bp, q, s, 0, n - 1);
#else
    quick_sort_buf(t, bp, q, 0, n - 1);
#endif
    for (i = 0; i < N; i++) {
        int src = q[i];
        if (i > 0 && i < n) vh_assert(t[i - 1] <= t[i], "dates not ascending");
        vh_assert(src >= 0 && src < N && t[i] == t0[src], "date separated from its QA");
        for (k = 0; k < TOTAL_IMAGE_BANDS; k++)
            vh_assert(bands[k][i] == (short)(100 * k + src), "band value separated from its date");
#ifdef SENSOR
        vh_assert(s[i] == (short)(50 + src), "sensor flag separated from its date");
#endif
        for (k = 0; k < i; k++) vh_assert(q[k] != src, "an observation was duplicated");
    }
    vh_reach("sort done");
    return 0;
}
#endif

#ifdef K_UNIQUE
int main(void)
{
    int x[N], x0[N], i, b, m = -1;
    float rows[TOTAL_IMAGE_BANDS][N], *bp[TOTAL_IMAGE_BANDS];
    int n = vh_range(1, N);
    for (i = 0; i < N; i++) { x[i] = x0[i] = vh_any_int(); if (i) vh_assume(x0[i - 1] <= x0[i]); }
    for (b = 0; b < TOTAL_IMAGE_BANDS; b++) { bp[b] = rows[b]; for (i = 0; i < N; i++) rows[b][i] = (float)(100 * b + i); }
    matlab_unique(x, bp, n, &m);
    int distinct = 0;
    for (i = 0; i < n; i++)
        if (i == 0 || x0[i] != x0[i - 1]) {
            /* the distinct-th output is the first observation of that date, in every band */
            vh_assert(distinct < m, "a date was dropped");
            vh_assert(x[distinct] == x0[i], "wrong date kept");
            for (b = 0; b < TOTAL_IMAGE_BANDS; b++)
                vh_assert(rows[b][distinct] == (float)(100 * b + i), "band value is not the first observation of its date");
            distinct++;
        }
    vh_assert(m == distinct, "number of distinct dates is wrong");
    vh_reach("unique done");
    return 0;
}
#endif

#ifdef K_MEDIAN
/* medians of an already sorted row, whole and partial window, float and double; mean, square mean, norms, rmse */
int main(void)
{
    float r0[N], r1[N], *rows[2] = {r0, r1}, out = -1.0f, c = vh_pickf(TS8);
    double d0[N], d1[N], *drows[2] = {d0, d1}, dout = -1.0;
    int i, n = vh_range(1, N), s = vh_range(0, N - 1), e = vh_range(0, N - 1), idx = vh_range(0, 1);
    vh_assume(s <= e);
    float *r; 
    for (i = 0; i < N; i++) {
        r0[i] = vh_pickf(TS8); r1[i] = vh_pickf(TS8);
        d0[i] = r0[i]; d1[i] = r1[i];
    }
    r = rows[idx];
#ifdef MED
    for (i = 1; i < N; i++) vh_assume(r[i - 1] <= r[i]);
    int w = e - s + 1;
    float want = (n % 2) ? r[n / 2] : (r[n / 2 - 1] + r[n / 2]) / 2;
    float wantp = (w % 2) ? r[s + w / 2] : (r[s + w / 2 - 1] + r[s + w / 2]) / 2;
    matlab_2d_float_median(rows, idx, n, &out);
    vh_assert(out == want, "median of a sorted row");
    matlab_2d_double_median(drows, idx, n, &dout);
    vh_assert(dout == (double)want, "median of a sorted double row");
    matlab_float_2d_partial_median(rows, idx, s, e, &out);
    vh_assert(out == wantp, "median of a window of a sorted row");
    matlab_double_2d_partial_median(drows, idx, s, e, &dout);
    vh_assert(dout == (double)wantp, "median of a window of a sorted double row");
#endif
#ifdef MEANS
    /* sums are small integers, so the quotient is the correctly rounded value of sum/count */
    int sum = 0, sumw = 0, sq = 0;
    for (i = 0; i < N; i++) {
        if (i < n) sum += (int)r[i];
        if (i >= s && i <= e) { sumw += (int)r[i]; sq += (int)r[i] * (int)r[i]; }
    }
    matlab_2d_array_mean(rows, idx, n, &out);
    vh_assert(out == (float)sum / (float)n, "mean of a row");
    matlab_2d_partial_mean(rows, idx, s, e, &out);
    vh_assert(out == (float)sumw / (float)(e - s + 1), "mean of a window");
    matlab_2d_partial_square_mean(rows, idx, s, e, &out);
    vh_assert(out == (float)sq / (float)(e - s + 1), "mean square of a window");
    array_1d_mean(r, s, e, &out);
    vh_assert(out == (float)((double)sumw / (double)(e - s + 1)), "mean of a 1-d window");
#endif
#ifdef NORMS
    /* data chosen so that the exact result is an integer root: out*out must equal the exact integer sum */
    int sq = 0, sd = 0, sw = 0, w = e - s + 1; 
    for (i = 0; i < N; i++) {
        int di = (int)r[i] - (int)c;
        if (i < n) { sq += (int)r[i] * (int)r[i]; sd += di * di; }
        if (i >= s && i <= e) sw += di * di;
    }
    int root = vh_range(0, 24), root2 = vh_range(0, 16), root3 = vh_range(0, 16);
    float cf0[1] = {c}, cf1[1] = {c}, *cf[2] = {cf0, cf1};
    if (idx == 0) cf1[0] = 99; else cf0[0] = 99;
    if (root * root == sq) {
        matlab_2d_array_norm(drows, idx, n, &dout);
        vh_assert(dout == (double)root, "euclidean norm (double)");
        matlab_2d_array_norm_float(rows, idx, n, &out);
        vh_assert(out == (float)root, "euclidean norm (float)");
        matlab_1d_array_norm(r, n, &out);
        vh_assert(out == (float)root, "euclidean norm (1-d)");
        vh_reach("norm");
    }
    if (root2 * root2 * n == sd) {
        rmse_from_square_root_mean(rows, c, idx, n, &out);
        vh_assert(out == (float)root2, "rmse against a constant");
        vh_reach("rmse");
    }
    if (root3 * root3 * w == sw) {
        partial_square_root_mean(rows, idx, s, e, cf, &out);
        vh_assert(out == (float)root3, "rmse of a window against a constant");
        vh_reach("partial rmse");
    }
#endif
    vh_reach("stats done");
    return 0;
}
#endif

#ifdef K_IDS
int main(void)
{
    int a[N], i, s = vh_range(0, N - 1), e = vh_range(-1, N - 1), len = -7, want = 0, mx = -7, ml = -7;
    for (i = 0; i < N; i++) { a[i] = vh_any_int(); if (i >= s && i <= e && a[i] != 0) want++; }
    get_ids_length(a, s, e, &len);
    vh_assert(len == want, "count of flagged observations in the window");
    int n = vh_range(1, N);
    for (i = 0; i < N; i++) vh_assume(a[i] > -999999);
    max_array_int(a, n, &mx, &ml);
    vh_assert(ml >= 0 && ml < n && a[ml] == mx, "position of the maximum");
    for (i = 0; i < N; i++) if (i < n) {
        vh_assert(a[i] <= mx, "maximum");
        if (i < ml) vh_assert(a[i] < mx, "first maximum");
    }
    int v = vh_any_int(), off = vh_range(0, 30);
    vh_assert((checkbit(v, off) != 0) == (((unsigned)v >> off) & 1u), "bit test");
    vh_reach("ids done");
    return 0;
}
#endif

#ifdef K_CFT
int main(void)
{
    int span = vh_any_int(), num_c = vh_range(0, 64), out = -1;
    update_cft(span, N_TIMES, MIN_NUM_C, MID_NUM_C, MAX_NUM_C, num_c, &out);
    int tier = span < 18 ? 4 : span < 24 ? 6 : 8;
    vh_assert(out == (tier < num_c ? tier : num_c), "model size tier for the number of clear observations");
    vh_reach("cft");
    return 0;
}
#endif

#ifdef K_VARIO
#define NB 3
int main(void)
{
    int x[N], i, b, s = vh_range(0, N - 2), e = vh_range(1, N - 1);
    float rows[NB][N], *bp[NB], out[NB], date_v = -5, max_v = -5, d[N], want;
    vh_assume(e > s + 1 || e == s + 1);
    vh_assume(s < e);
    /* one band (or the dates) is symbolic at a time, the other rows are fixed and distinct */
    int which = vh_fork(vh_range(-1, NB - 1));
    for (i = 0; i < N; i++) { x[i] = (which == -1 ? (int)vh_pickd(TD8) : 16 + (i * 7) % 5) + (i ? x[i - 1] : 720000); }
    for (b = 0; b < NB; b++) { bp[b] = rows[b]; out[b] = -5; for (i = 0; i < N; i++) rows[b][i] = b == which ? vh_pickf(TR8) : (float)(100 * b + (i * i * (b + 3)) % 17); }
    int st = adjust_median_variogram(x, bp, NB, s, e, &date_v, &max_v, out, 1);
    vh_assert(st == SUCCESS, "variogram fails");
    int m = e - s;
    float mx = 0;
    for (i = 0; i < N; i++) d[i] = 0;
    for (i = s; i < e; i++) { d[i - s] = (float)(x[i + 1] - x[i]); mx = d[i - s] > mx ? d[i - s] : mx; }
    vh_assert(date_v == ref_median(d, m), "median revisit interval");
    vh_assert(max_v == mx, "largest revisit interval");
    for (b = 0; b < NB; b++) {
        for (i = s; i < e; i++) d[i - s] = absdiff(rows[b][i + 1], rows[b][i]);
        vh_assert(out[b] == ref_median(d, m), "per-band variogram is the median absolute successive difference");
    }
    vh_reach("vario");
    return 0;
}
#endif

#ifdef K_VARIO_SHORT
#define NB 3
int main(void)
{
    int x[N], i, b, s = vh_range(0, N - 1), len = vh_range(0, 1);
    float rows[NB][N], *bp[NB], out[NB], date_v = -5, max_v = -5;
    for (i = 0; i < N; i++) { x[i] = (int)vh_pickd(TD8) + (i ? x[i - 1] : 720000); }
    for (b = 0; b < NB; b++) { bp[b] = rows[b]; out[b] = -5; for (i = 0; i < N; i++) rows[b][i] = vh_pickf(TR8); }
    int st = adjust_median_variogram(x, bp, NB, s, s + len - 1, &date_v, &max_v, out, 1);
    vh_assert(st == SUCCESS, "variogram of a degenerate window fails");
    for (b = 0; b < NB; b++)
        vh_assert(out[b] == (len ? rows[b][s] : 0.0f), "every band of a degenerate window is set");
    vh_reach("vario short");
    return 0;
}
#endif

#ifdef K_SB_VARIO
int main(void)
{
    int i, s = vh_range(0, N - 2), e = vh_range(1, N - 1), x[N];
    float a[N], d[N], v = -5;
    vh_assume(s < e);
    for (i = 0; i < N; i++) { a[i] = vh_pickf(TR8); d[i] = 0; }
    vh_assert(singleband_variogram(a, s, e, &v) == SUCCESS, "status");
    for (i = s; i < e; i++) d[i - s] = absdiff(a[i + 1], a[i]);
    vh_assert(v == ref_median(d, e - s), "single-band variogram");
    vh_reach("sb vario");
    return 0;
}
#endif

#ifdef K_NEAREST
int main(void)
{
    int x[N], i, n = vh_range(1, N), t = vh_range(600000, 900000);
    for (i = 0; i < N; i++) { x[i] = vh_range(600000, 900000); if (i) vh_assume(x[i] > x[i - 1]); }
    int r = find_index_clrx(x, n, t);
    vh_assert(r >= 0 && r < n, "index of the nearest observation is a position of the series");
    for (i = 0; i < N; i++) if (i < n) {
        int di = abs(x[i] - t), dr = abs(x[r] - t);
        vh_assert(dr <= di, "a nearer observation exists");
        if (i < r) vh_assert(dr < di, "ties go to the earlier observation");
    }
    vh_reach("nearest");
    return 0;
}
#endif

#ifdef K_DECAY
int main(void)
{
    VH_TAB(TA, -1, 0, 1e-9, 10, 22.5, 44.99, 45, 45.01, 60, 75, 89.999, 90, 90.5, 120, 135, 180, 181, 1000);
    VH_TAB(TLO, 0, 10, 15, 30, 45);
    VH_TAB(THI, 46, 60, 90, 135, 180);
    double a = vh_pickd(TA), a2 = vh_pickd(TA), lo = vh_pickd(TLO), hi = vh_pickd(THI);
    double p = angle_decaying(a, lo, hi);
    vh_assert(p >= -1e-9 && p <= 1 + 1e-9, "probability in [0,1]");
    if (a < lo) vh_assert(p == 1.0, "no decay below the low bound");
    if (a > hi) vh_assert(p == 0.0, "full decay above the high bound");
    double p2 = angle_decaying(a2, lo, hi), mid = (lo + hi) / 2;
    if (a <= a2) vh_assert(p >= p2, "a larger angle never counts more");
    if (a == mid) vh_assert(p == 0.5, "halfway between the bounds counts one half");
    vh_reach("decay");
    return 0;
}
#endif

#ifdef K_CAL
static int leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
/* proleptic Gregorian ordinal of 31 December of year y (day 1 = 1 January of year 1) */
static int last_day(int y) { return 365 * y + y / 4 - y / 100 + y / 400; }
int main(void)
{
    int y = vh_range(1973, YMAX), doy = vh_range(1, 366), j = vh_any_int(), y2 = -1, d2 = -1;
    int anyy = vh_range(1, 9999);
    vh_assert((is_leap_year(anyy) != 0) == leap(anyy), "leap year rule");
    vh_assume(doy <= 365 + leap(y));
    int st = convert_year_doy_to_ordinal(y, doy, &j);
    vh_assert(st == SUCCESS, "date conversion fails");
    vh_assert(j == last_day(y - 1) + doy, "ordinal day of a year/day-of-year");
    st = convert_jday_to_year_doy_from_0001(last_day(y - 1) + doy, &y2, &d2);
    vh_assert(st == SUCCESS && y2 == y && d2 == doy, "year/day-of-year of an ordinal day");
    vh_reach("cal");
    return 0;
}
#endif
#ifdef K_CAL_REJECT
int main(void)
{
    int y = vh_range(-5, 1972), j = 0, y2 = -1, d2 = -1, j0 = vh_range(-5, 720257);
    vh_assert(convert_year_doy_to_ordinal(y, vh_range(1, 366), &j) != SUCCESS, "a year before the archive is rejected");
    vh_assert(convert_jday_to_year_doy_from_0001(j0, &y2, &d2) != SUCCESS, "a date before the archive is rejected");
    vh_reach("cal reject");
    return 0;
}
#endif
#ifdef K_DOY
int main(void)
{
    static const int ml[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    int y = vh_range(1, 9999), m = vh_range(1, 12), d = vh_range(1, 31), i, want = 0;
    int lp = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    vh_assume(d <= ml[m - 1] + (m == 2 ? lp : 0));
    for (i = 1; i < 13; i++) if (i < m) want += ml[i - 1] + (i == 2 ? lp : 0);
    vh_assert(yearmonth2doy(y, m, d) == want + d, "day of year of a calendar date");
    vh_reach("doy");
    return 0;
}
#endif

#ifdef K_DEGR
int main(void)
{
    static Output_t t[N];
    int n = vh_range(0, N), band = vh_range(0, TOTAL_IMAGE_BANDS - 1), up = vh_range(0, 1), i, dy = -1, want = 0;
    for (i = 0; i < N; i++) { t[i].t_break = vh_range(720259, 720259 + 366 * YSPAN); t[i].magnitude[band] = vh_frange(-3, 3); }
    int st = firstDegradationYear(t, n, band, up, &dy), y2 = 0, d2 = 0;
    vh_assert(st == SUCCESS, "status");
    if (n > 1)
        for (i = N - 1; i >= 0; i--)
            if (i < n && (up ? t[i].magnitude[band] > 0 : t[i].magnitude[band] < 0)) {
                convert_jday_to_year_doy_from_0001(t[i].t_break, &y2, &d2);
                want = y2;
            }
    vh_assert(dy == want, "year of the first break in the requested direction");
    vh_reach("degr");
    return 0;
}
#endif

#ifdef K_2D
int main(void)
{
    int r = vh_range(1, R), c = vh_range(1, C), i, j, k = vh_range(0, 3);
    size_t sz = k == 0 ? sizeof(short) : k == 1 ? sizeof(float) : k == 2 ? sizeof(int) : sizeof(double);
    char **a = (char **)allocate_2d_array(r, c, sz);
    vh_assert(a != NULL, "allocation");
    int i1 = vh_range(0, R - 1), i2 = vh_range(0, R - 1), j1 = vh_range(0, C - 1), j2 = vh_range(0, C - 1);
    vh_assume(i1 < r && i2 < r && j1 < c && j2 < c);
    /* two different cells never share storage, and every cell is inside the allocation and aligned */
    a[i1][j1 * sz] = 1; a[i1][j1 * sz + sz - 1] = 1;
    if (i1 != i2 || j1 != j2) {
        a[i2][j2 * sz] = 2; a[i2][j2 * sz + sz - 1] = 2;
        vh_assert(a[i1][j1 * sz] == 1 && a[i1][j1 * sz + sz - 1] == 1, "two cells of a 2-D array overlap");
    }
    vh_assert(a[i1] != NULL && a[i2] != NULL, "row pointer overwritten by cell data");
    /* filling every cell leaves the row pointers usable */
    char *row0 = a[0];
    for (j = 0; j < C; j++) if (j < c) { a[r - 1][j * sz] = 3; a[r - 1][j * sz + sz - 1] = 3; a[0][j * sz] = 3; }
    vh_assert(a[0] == row0, "row pointer clobbered");
    vh_assert(free_2d_array((void **)a) == SUCCESS, "a live array can be released");
    vh_reach("2d");
    return 0;
}
#endif

#ifdef K_PRE
/* every field of N observations free */
int main(void)
{
    long b[7][N], q[N];
    int i, k, n = N, idr[N], c = 0, w = 0, sh = 0, sn = 0, cl = 0, ec = 0, ew = 0, es = 0, en = 0, el = 0, known = 1;
    bool c2 = vh_range(0, 1);
    for (i = 0; i < N; i++) {
        for (k = 0; k < 7; k++) b[k][i] = vh_any_int();
#ifdef SHORTVAL
        for (k = 0; k < 7; k++) vh_assume((b[k][i] >= -32768) & (b[k][i] <= 32767));
#endif
        q[i] = vh_any_int();
        idr[i] = 99;
    }
    int st = preprocessing(b[0], b[1], b[2], b[3], b[4], b[5], b[6], q, &n, idr, &c, &w, &sh, &sn, &cl, c2);
    for (i = 0; i < N; i++) {
        known &= ((q[i] >= 0) & (q[i] <= 4)) | (q[i] == 255);
        ec += (q[i] == 0) | (q[i] == 1); ew += q[i] == 1; es += q[i] == 2; en += q[i] == 3; el += q[i] == 4;
    }
    vh_assert(n == N, "number of observations");
    vh_assert((st == SUCCESS) == known, "a quality value outside the documented set is an error, any other is not");
    if (known) {
        vh_assert((c == ec) & (w == ew) & (sh == es) & (sn == en) & (cl == el), "class counts");
        for (i = 0; i < N; i++) {
            int ok = (b[0][i] > -200) & (b[0][i] < 10000) & (q[i] != 255);
            for (k = 1; k < 6; k++) ok &= (b[k][i] > 0) & (b[k][i] < 10000);
            if (!c2 && b[6][i] != 0) ok &= (b[6][i] * 10 > 27320 - 9320) & (b[6][i] * 10 < 27320 + 7070);
            vh_assert(idr[i] == ok, "an observation takes part exactly when it is valid");
        }
        vh_reach("known");
    } else vh_reach("unknown");
    return 0;
}
#endif
