/* the GSL containers used by the code under test, by their documented definition */
#ifndef MINIGSL_H
#define MINIGSL_H
#include <stdlib.h>
#include <gsl/gsl_matrix.h>
#include <gsl/gsl_vector.h>
gsl_matrix *gsl_matrix_alloc(size_t a, size_t b)
{
    gsl_matrix *m = malloc(sizeof *m);
    m->size1 = a; m->size2 = b; m->tda = b; m->data = malloc(a * b * sizeof(double)); m->block = 0; m->owner = 1;
    return m;
}
gsl_matrix *gsl_matrix_calloc(size_t a, size_t b) { gsl_matrix *m = gsl_matrix_alloc(a, b); for (size_t i = 0; i < a * b; i++) m->data[i] = 0; return m; }
void gsl_matrix_free(gsl_matrix *m) { if (!m) return; free(m->data); free(m); }
void gsl_matrix_set(gsl_matrix *m, const size_t i, const size_t j, const double v) { vh_assert((i < m->size1) & (j < m->size2), "matrix index"); m->data[i * m->tda + j] = v; }
double gsl_matrix_get(const gsl_matrix *m, const size_t i, const size_t j) { vh_assert((i < m->size1) & (j < m->size2), "matrix index"); return m->data[i * m->tda + j]; }
gsl_vector *gsl_vector_alloc(size_t n)
{
    gsl_vector *v = malloc(sizeof *v);
    v->size = n; v->stride = 1; v->data = malloc(n * sizeof(double)); v->block = 0; v->owner = 1;
    return v;
}
gsl_vector *gsl_vector_calloc(size_t n) { gsl_vector *v = gsl_vector_alloc(n); for (size_t i = 0; i < n; i++) v->data[i] = 0; return v; }
void gsl_vector_free(gsl_vector *v) { if (!v) return; free(v->data); free(v); }
void gsl_vector_set(gsl_vector *v, const size_t i, double x) { vh_assert(i < v->size, "vector index"); v->data[i] = x; }
double gsl_vector_get(const gsl_vector *v, const size_t i) { vh_assert(i < v->size, "vector index"); return v->data[i]; }
#ifdef MINIBLAS
#include <gsl/gsl_blas.h>
#define MM(m, i, j) ((m)->data[(i) * (m)->tda + (j)])
#define VV(v, i) ((v)->data[(i) * (v)->stride])
/* element (i,j) of the symmetric matrix stored in the given triangle */
static double sy(CBLAS_UPLO_t u, const gsl_matrix *a, size_t i, size_t j) { int up = i <= j; if ((u == CblasUpper) == up || i == j) return MM(a, i, j); return MM(a, j, i); }
int gsl_blas_ddot(const gsl_vector *x, const gsl_vector *y, double *r) { double s = 0; for (size_t i = 0; i < x->size; i++) s += VV(x, i) * VV(y, i); *r = s; return 0; }
int gsl_blas_daxpy(double a, const gsl_vector *x, gsl_vector *y) { for (size_t i = 0; i < x->size; i++) VV(y, i) += a * VV(x, i); return 0; }
int gsl_blas_dsymv(CBLAS_UPLO_t u, double al, const gsl_matrix *a, const gsl_vector *x, double be, gsl_vector *y)
{
    size_t n = a->size1;
    for (size_t i = 0; i < n; i++) { double s = 0; for (size_t j = 0; j < n; j++) s += sy(u, a, i, j) * VV(x, j); VV(y, i) = be == 0 ? al * s : al * s + be * VV(y, i); }
    return 0;
}
int gsl_blas_dgemv(CBLAS_TRANSPOSE_t t, double al, const gsl_matrix *a, const gsl_vector *x, double be, gsl_vector *y)
{
    size_t n = t == CblasNoTrans ? a->size1 : a->size2, m = t == CblasNoTrans ? a->size2 : a->size1;
    for (size_t i = 0; i < n; i++) { double s = 0; for (size_t j = 0; j < m; j++) s += (t == CblasNoTrans ? MM(a, i, j) : MM(a, j, i)) * VV(x, j); VV(y, i) = be == 0 ? al * s : al * s + be * VV(y, i); }
    return 0;
}
int gsl_blas_dgemm(CBLAS_TRANSPOSE_t ta, CBLAS_TRANSPOSE_t tb, double al, const gsl_matrix *a, const gsl_matrix *b, double be, gsl_matrix *c)
{
    size_t n = c->size1, m = c->size2, p = ta == CblasNoTrans ? a->size2 : a->size1;
    vh_assert((c != a) & (c != b), "matrix product written over its operand");
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) {
        double s = 0;
        for (size_t k = 0; k < p; k++) s += (ta == CblasNoTrans ? MM(a, i, k) : MM(a, k, i)) * (tb == CblasNoTrans ? MM(b, k, j) : MM(b, j, k));
        MM(c, i, j) = be == 0 ? al * s : al * s + be * MM(c, i, j);
    }
    return 0;
}
int gsl_blas_dsymm(CBLAS_SIDE_t sd, CBLAS_UPLO_t u, double al, const gsl_matrix *a, const gsl_matrix *b, double be, gsl_matrix *c)
{
    size_t n = c->size1, m = c->size2;
    vh_assert((c != a) & (c != b), "matrix product written over its operand");
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < m; j++) {
        double s = 0;
        if (sd == CblasLeft) for (size_t k = 0; k < n; k++) s += sy(u, a, i, k) * MM(b, k, j);
        else for (size_t k = 0; k < m; k++) s += MM(b, i, k) * sy(u, a, k, j);
        MM(c, i, j) = be == 0 ? al * s : al * s + be * MM(c, i, j);
    }
    return 0;
}
int gsl_blas_dsyr(CBLAS_UPLO_t u, double al, const gsl_vector *x, gsl_matrix *a)
{
    for (size_t i = 0; i < a->size1; i++) for (size_t j = 0; j < a->size2; j++) if (u == CblasUpper ? i <= j : i >= j) MM(a, i, j) += al * VV(x, i) * VV(x, j);
    return 0;
}
int gsl_blas_dsyr2(CBLAS_UPLO_t u, double al, const gsl_vector *x, const gsl_vector *y, gsl_matrix *a)
{
    for (size_t i = 0; i < a->size1; i++) for (size_t j = 0; j < a->size2; j++) if (u == CblasUpper ? i <= j : i >= j) MM(a, i, j) += al * (VV(x, i) * VV(y, j) + VV(y, i) * VV(x, j));
    return 0;
}
int gsl_matrix_add(gsl_matrix *a, const gsl_matrix *b) { for (size_t i = 0; i < a->size1; i++) for (size_t j = 0; j < a->size2; j++) MM(a, i, j) += MM(b, i, j); return 0; }
int gsl_vector_memcpy(gsl_vector *d, const gsl_vector *s) { for (size_t i = 0; i < s->size; i++) VV(d, i) = VV(s, i); return 0; }
int gsl_matrix_memcpy(gsl_matrix *d, const gsl_matrix *s) { for (size_t i = 0; i < s->size1; i++) for (size_t j = 0; j < s->size2; j++) MM(d, i, j) = MM(s, i, j); return 0; }
#endif
#endif
