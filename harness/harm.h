/* harmonic bases: cosf/sinf (and cos/sin) of harmonic h of observation date i are replaced by dyadic constants that
 * identify (h, i), so that a model value is an exact number and says which term was used with which coefficient.
 * Any other argument is a failure.  ND observation dates HD[], annual frequency w. */
#ifndef HARM_H
#define HARM_H
#include "vh.h"
static int HD[ND];
static double HW = 6.283185307179586476925286766559 / 365.25;
static double hw2;                      /* optional extra frequency (screening model), as harmonic number 4 */
static double h_basis(int kind, int h, int i)   /* kind 0 = cos, 1 = sin; distinct, |.| <= 1, multiples of 1/128 */
{
    int v = (i * 37 + h * 11 + kind * 53 + 5) % 127 - 63;
    return v / 64.0;
}
static double h_eval(int kind, double a)
{
    for (int h = 1; h <= 4; h++) {
        if (h == 4 && hw2 == 0) continue;
        for (int i = 0; i < ND; i++) {
            double t = a - (h == 4 ? hw2 : h * HW) * HD[i];
            if (t < 0.03 && t > -0.03) return h_basis(kind, h, i);
        }
    }
    vh_assert(0, "cosine or sine of something that is not a harmonic of an observation date");
    return 0;
}
float cosf(float a) { return (float)h_eval(0, a); }
float sinf(float a) { return (float)h_eval(1, a); }
double cos(double a) { return h_eval(0, a); }
double sin(double a) { return h_eval(1, a); }
void sincosf(float a, float *s, float *c) { *s = sinf(a); *c = cosf(a); }
void sincos(double a, double *s, double *c) { *s = sin(a); *c = cos(a); }
#endif
