/* vh.h - nondeterministic inputs, assumptions and assertions shared by every C harness.
 *
 * Under CBMC each vh_* call is a fresh symbolic value, recorded with __CPROVER_input so that a
 * counterexample can be read back.  With -DVH_REPLAY the same harness is an ordinary C program that reads
 * the recorded values from the file named by VH_INPUT and runs them against the natively compiled code. */
#ifndef VH_H
#define VH_H
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

#ifdef VH_SYM            /* msym: forking symbolic execution of the LLVM bitcode */
int vhi_range(int lo, int hi); int vhi_int(void); long vhi_long(void); float vhi_float(void); double vhi_double(void);
void vhi_assume(int c); void vhi_assert(int c, const char *msg); void vhi_reach(const char *id); void vhi_stop(void);
void vhi_initialised(const void *p, unsigned long n, const char *msg); long vhi_live_heap(void); int vhi_concrete(int v);
#define vh_any_int() vhi_int()
#define vh_any_long() vhi_long()
#define vh_any_float() vhi_float()
#define vh_any_double() vhi_double()
#define vh_any_short() ((short)vhi_int())
#define vh_assume(c) vhi_assume((c) != 0)
#define vh_assert(c, msg) vhi_assert((c) != 0, msg)
#define vh_reach(id) vhi_reach(id)
#define vh_stop() vhi_stop()
#define vh_initialised(p, n, msg) vhi_initialised(p, n, msg)
#define vh_fork(v) vhi_concrete(v)     /* explore each feasible value on its own path */
static inline int vh_range(int lo, int hi) { return vhi_range(lo, hi); }
#else
#ifdef VH_REPLAY
uint64_t vh_next(void);
void vh_fail(const char *msg, const char *file, int line);
void vh_discard(void);
void vh_exit0(void);
static inline int    vh_any_int(void)    { return (int)(uint32_t)vh_next(); }
static inline short  vh_any_short(void)  { return (short)(uint16_t)vh_next(); }
static inline float  vh_any_float(void)  { uint32_t b = (uint32_t)vh_next(); float f; memcpy(&f, &b, 4); return f; }
static inline double vh_any_double(void) { uint64_t b = vh_next(); double f; memcpy(&f, &b, 8); return f; }
#define vh_assume(c) do { if (!(c)) vh_discard(); } while (0)
#define vh_assert(c, msg) do { if (!(c)) vh_fail(msg, __FILE__, __LINE__); } while (0)
#define vh_reach(id) ((void)0)
#define vh_stop() vh_exit0()
static inline long vh_any_long(void) { return (long)vh_next(); }
#ifdef VH_VALGRIND
#include <valgrind/memcheck.h>
#define vh_initialised(p, n, msg) do { if (VALGRIND_CHECK_MEM_IS_DEFINED(p, n)) vh_fail("uninitialised: " msg, __FILE__, __LINE__); } while (0)
#else
#define vh_initialised(p, n, msg) ((void)0)
#endif
#define vh_fork(v) (v)
#else
int nondet_int(void); short nondet_short(void); float nondet_float(void); double nondet_double(void);
static int    vh_any_int(void)    { int v = nondet_int();       __CPROVER_input("vh", v); return v; }
static short  vh_any_short(void)  { short v = nondet_short();   __CPROVER_input("vh", v); return v; }
static float  vh_any_float(void)  { float v = nondet_float();   __CPROVER_input("vh", v); return v; }
static double vh_any_double(void) { double v = nondet_double(); __CPROVER_input("vh", v); return v; }
#define vh_assume(c) __CPROVER_assume(c)
#define vh_assert(c, msg) __CPROVER_assert(c, "VH " msg)
/* reachability witness: must come back violated, otherwise the harness is vacuous at this point */
#define vh_reach(id) __CPROVER_assert(0, "VHREACH " id)
#define vh_stop() __CPROVER_assume(0)
#define vh_initialised(p, n, msg) ((void)0)
#define vh_fork(v) (v)
#endif

/* integer in [lo, hi] */
static inline int vh_range(int lo, int hi)
{
    int v = vh_any_int();
    vh_assume(v >= lo && v <= hi);
    return v;
}
#endif
/* value of the table tab[0..n-1] at a fresh symbolic position */
#ifdef VH_SYM
double vhi_pick(const double *tab, int n);
#define vh_pick vhi_pick
#else
static inline double vh_pick(const double *tab, int n)
{
    int k = vh_range(0, n - 1);
    double v = tab[0];
    for (int i = 1; i < 16; i++) { if (i >= n) break; if (k == i) v = tab[i]; }
    return v;
}
#endif
#define VH_TAB(name, ...) static const double name[] = {__VA_ARGS__}
#define vh_pickf(tab) ((float)vh_pick(tab, (int)(sizeof(tab) / sizeof((tab)[0]))))
#define vh_pickd(tab) (vh_pick(tab, (int)(sizeof(tab) / sizeof((tab)[0]))))
/* a float holding an integer of [lo, hi]: every sum and product of such values used by a harness is exact in
 * binary32, so an equivalent re-association of the code under test cannot change the outcome */
static inline float vh_frange(int lo, int hi) { return (float)vh_range(lo, hi); }

#endif
