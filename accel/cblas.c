/* Stand-in for the CBLAS functions the crate calls: the reference BLAS loops and argument checks (xerbla becomes abort). */
#include <stdio.h>
#include <stdlib.h>
static void outside(const char *f, const char *why) { fprintf(stderr, "CBLAS contract: %s: %s\n", f, why); abort(); }
#define MAX(a, b) ((a) > (b) ? (a) : (b))
#define ALL(S, T) \
void catlas_##S##set(int N, T alpha, T *X, int incX) { for (int i = 0; i < N; i++) X[(long)i * incX] = alpha; } \
T cblas_##S##dot(int N, const T *X, int incX, const T *Y, int incY) { \
    T s = 0; long x = incX < 0 ? (long)(1 - N) * incX : 0, y = incY < 0 ? (long)(1 - N) * incY : 0; \
    for (int i = 0; i < N; i++, x += incX, y += incY) s += X[x] * Y[y]; return s; } \
void cblas_##S##gemv(int order, int trans, int M, int N, T alpha, const T *A, int lda, const T *X, int incX, T beta, T *Y, int incY) { \
    const char *f = "cblas_" #S "gemv"; \
    if (order != 101 && order != 102) outside(f, "order"); \
    if (trans < 111 || trans > 113) outside(f, "trans"); \
    if (M < 0 || N < 0) outside(f, "negative size"); \
    if (lda < MAX(1, order == 101 ? N : M)) outside(f, "leading dimension smaller than a row"); \
    if (incX == 0 || incY == 0) outside(f, "zero increment"); \
    if (M == 0 || N == 0) return; \
    int t = trans != 111, rows = t ? N : M, cols = t ? M : N; \
    long rs = order == 101 ? lda : 1, cs = order == 101 ? 1 : lda; if (t) { long q = rs; rs = cs; cs = q; } \
    long y0 = incY < 0 ? (long)(1 - rows) * incY : 0, x0 = incX < 0 ? (long)(1 - cols) * incX : 0; \
    for (int i = 0; i < rows; i++) { T s = 0; for (int j = 0; j < cols; j++) s += A[i * rs + j * cs] * X[x0 + (long)j * incX]; \
        T *y = &Y[y0 + (long)i * incY]; *y = beta == 0 ? alpha * s : alpha * s + beta * *y; } } \
void cblas_##S##gemm(int order, int ta, int tb, int M, int N, int K, T alpha, const T *A, int lda, const T *B, int ldb, T beta, T *C, int ldc) { \
    const char *f = "cblas_" #S "gemm"; \
    if (order != 101 && order != 102) outside(f, "order"); \
    if (ta < 111 || ta > 113 || tb < 111 || tb > 113) outside(f, "trans"); \
    if (M < 0 || N < 0 || K < 0) outside(f, "negative size"); \
    int row = order == 101, na = ta != 111, nb = tb != 111; \
    if (lda < MAX(1, row ^ na ? K : M)) outside(f, "leading dimension of A smaller than a row"); \
    if (ldb < MAX(1, row ^ nb ? N : K)) outside(f, "leading dimension of B smaller than a row"); \
    if (ldc < MAX(1, row ? N : M)) outside(f, "leading dimension of C smaller than a row"); \
    long ar = row ? lda : 1, ac = row ? 1 : lda, br = row ? ldb : 1, bc = row ? 1 : ldb, cr = row ? ldc : 1, cc = row ? 1 : ldc, q; \
    if (na) { q = ar; ar = ac; ac = q; } if (nb) { q = br; br = bc; bc = q; } \
    for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) { T s = 0; for (int k = 0; k < K; k++) s += A[i * ar + k * ac] * B[k * br + j * bc]; \
        T *c = &C[i * cr + j * cc]; *c = beta == 0 ? alpha * s : alpha * s + beta * *c; } }
ALL(s, float)
ALL(d, double)
