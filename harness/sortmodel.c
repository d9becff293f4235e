/* Contracts of the library's in-place sorts, used in place of every call made *inside* the library (so also of the
 * recursive calls): "sort the window [left,right], leave the rest".  Property C09 proves, one unfolding at a time,
 * that each real sort meets its contract given that the calls it makes on strictly smaller windows do. */
#include "vh.h"
#include "const.h"
#include "defines.h"
#ifndef VH_SORT_MAX
#define VH_SORT_MAX 6
#endif
/* window of the sort under proof (set by the C09 harness); -1: not active */
int vh_win_l = 0, vh_win_r = -1;
static void enter(int left, int right)
{
    vh_assert(right < VH_SORT_MAX, "sort window larger than the bound of the model");
    if (vh_win_r >= 0)
        vh_assert(left >= vh_win_l && right <= vh_win_r && right - left < vh_win_r - vh_win_l,
                  "a recursive sort call is not on a strictly smaller window");
}
#define NET(SWAP) \
    for (int p = 0; p + 1 < VH_SORT_MAX; p++) \
        for (int i = 0; i + 1 < VH_SORT_MAX; i++) \
            if (i >= left && i + 1 <= right && arr[i] > arr[i + 1]) { SWAP }
#define SW(T, a, b) { T vh_t = a; a = b; b = vh_t; }
void vh_m_sort_float(float arr[], int left, int right) { enter(left, right); NET(SW(float, arr[i], arr[i + 1])) }
void vh_m_sort_double(double arr[], int left, int right) { enter(left, right); NET(SW(double, arr[i], arr[i + 1])) }
void vh_m_sort_long(long arr[], int left, int right) { enter(left, right); NET(SW(long, arr[i], arr[i + 1])) }
void vh_m_sort_int(int arr[], int left, int right) { enter(left, right); NET(SW(int, arr[i], arr[i + 1])) }
void vh_m_sort_index(int arr[], int *index, int left, int right)
{ enter(left, right); NET(SW(int, arr[i], arr[i + 1]) SW(int, index[i], index[i + 1])) }
void vh_m_sort_2d_float(float arr[], float *brr[], int left, int right, int band_num)
{ enter(left, right); NET(SW(float, arr[i], arr[i + 1]) for (int b = 0; b < band_num; b++) SW(float, brr[b][i], brr[b][i + 1])) }
void vh_m_sort_2d_double(double arr[], double *brr[], int left, int right, int band_num)
{ enter(left, right); NET(SW(double, arr[i], arr[i + 1]) for (int b = 0; b < band_num; b++) SW(double, brr[b][i], brr[b][i + 1])) }
void vh_m_sort_buf(int arr[], short int **brr, short int *fmask_buf, int left, int right)
{ enter(left, right); NET(SW(int, arr[i], arr[i + 1]) SW(short, fmask_buf[i], fmask_buf[i + 1]) for (int b = 0; b < TOTAL_IMAGE_BANDS; b++) SW(short, brr[b][i], brr[b][i + 1])) }
void vh_m_sort_buf_sensor(int arr[], short int **brr, short int *fmask_buf, short int *sensor, int left, int right)
{ enter(left, right); NET(SW(int, arr[i], arr[i + 1]) SW(short, fmask_buf[i], fmask_buf[i + 1]) SW(short, sensor[i], sensor[i + 1]) for (int b = 0; b < TOTAL_IMAGE_BANDS; b++) SW(short, brr[b][i], brr[b][i + 1])) }
