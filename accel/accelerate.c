/* Stand-in for the vDSP functions the crate calls: plain loops that follow the documented contract and
   abort when a call lies outside it (the harness reports the death of the process as a failure). */
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
static void outside(const char *f, const char *why) { fprintf(stderr, "vDSP contract: %s: %s\n", f, why); abort(); }
typedef struct { uintptr_t lo, hi; } range;
static range span(const void *p, ptrdiff_t s, size_t n, size_t w) {
    uintptr_t a = (uintptr_t)p, b = a + (ptrdiff_t)(n - 1) * s * (ptrdiff_t)w;
    range r = { a < b ? a : b, (a < b ? b : a) + w }; return r;
}
/* output: not null, no zero stride over several elements, and it may only overlap an input in place (same start, same stride) */
static void out(const char *f, const void *c, ptrdiff_t ic, size_t n, size_t w) {
    if (!n) return;
    if (!c) outside(f, "null output");
    if (ic == 0 && n > 1) outside(f, "zero output stride");
}
static void in(const char *f, const void *a, ptrdiff_t ia, const void *c, ptrdiff_t ic, size_t n, size_t w) {
    if (!n) return;
    if (!a) outside(f, "null input");
    if (a == c && (ia == ic || n == 1)) return;
    range x = span(a, ia, n, w), y = span(c, ic, n, w);
    if (x.lo < y.hi && y.lo < x.hi) outside(f, "output partially overlaps an input");
}
#define BIN(NAME, T, EXPR) void NAME(const T *A, ptrdiff_t IA, const T *B, ptrdiff_t IB, T *C, ptrdiff_t IC, size_t N) { \
    out(#NAME, C, IC, N, sizeof(T)); in(#NAME, A, IA, C, IC, N, sizeof(T)); in(#NAME, B, IB, C, IC, N, sizeof(T)); \
    for (size_t i = 0; i < N; i++) { T a = A[(ptrdiff_t)i * IA], b = B[(ptrdiff_t)i * IB]; C[(ptrdiff_t)i * IC] = EXPR; } }
static int32_t wadd(int32_t a, int32_t b) { return (int32_t)((uint32_t)a + (uint32_t)b); }
static int32_t idiv(int32_t a, int32_t b) { if (b == 0 || (a == INT32_MIN && b == -1)) outside("vDSP_vdivi", "undefined quotient"); return a / b; }
BIN(vDSP_vadd, float, a + b)   BIN(vDSP_vaddD, double, a + b)   BIN(vDSP_vaddi, int32_t, wadd(a, b))
BIN(vDSP_vmul, float, a * b)   BIN(vDSP_vmulD, double, a * b)
/* vsub and vdiv take the second operand first: C = B - A, C = B / A in the order of the parameters */
BIN(vDSP_vsub, float, b - a)   BIN(vDSP_vsubD, double, b - a)
BIN(vDSP_vdiv, float, b / a)   BIN(vDSP_vdivD, double, b / a)   BIN(vDSP_vdivi, int32_t, idiv(b, a))
#define VS(NAME, T, EXPR) void NAME(const T *A, ptrdiff_t IA, const T *B, T *C, ptrdiff_t IC, size_t N) { \
    out(#NAME, C, IC, N, sizeof(T)); in(#NAME, A, IA, C, IC, N, sizeof(T)); in(#NAME, B, 0, C, IC, N, sizeof(T)); if (!N) return; \
    T b = *B; for (size_t i = 0; i < N; i++) { T a = A[(ptrdiff_t)i * IA]; C[(ptrdiff_t)i * IC] = EXPR; } }
VS(vDSP_vsadd, float, a + b)   VS(vDSP_vsaddD, double, a + b)   VS(vDSP_vsaddi, int32_t, wadd(a, b))
VS(vDSP_vsmul, float, a * b)   VS(vDSP_vsmulD, double, a * b)
VS(vDSP_vsdiv, float, a / b)   VS(vDSP_vsdivD, double, a / b)   VS(vDSP_vsdivi, int32_t, idiv(a, b))
#define SV(NAME, T) void NAME(const T *A, const T *B, ptrdiff_t IB, T *C, ptrdiff_t IC, size_t N) { \
    out(#NAME, C, IC, N, sizeof(T)); in(#NAME, B, IB, C, IC, N, sizeof(T)); in(#NAME, A, 0, C, IC, N, sizeof(T)); if (!N) return; \
    T a = *A; for (size_t i = 0; i < N; i++) C[(ptrdiff_t)i * IC] = a / B[(ptrdiff_t)i * IB]; }
SV(vDSP_svdiv, float) SV(vDSP_svdivD, double)
#define FILL(NAME, T) void NAME(const T *A, T *C, ptrdiff_t IC, size_t N) { out(#NAME, C, IC, N, sizeof(T)); if (!N) return; \
    T a = *A; for (size_t i = 0; i < N; i++) C[(ptrdiff_t)i * IC] = a; }
FILL(vDSP_vfill, float) FILL(vDSP_vfillD, double) FILL(vDSP_vfilli, int32_t)
/* sums are accumulated in four lanes, as a vector unit would */
#define SVE(NAME, T) void NAME(const T *A, ptrdiff_t I, T *C, size_t N) { if (!C) outside(#NAME, "null output"); \
    T s[4] = { 0, 0, 0, 0 }; for (size_t i = 0; i < N; i++) s[i % 4] += A[(ptrdiff_t)i * I]; *C = (s[0] + s[1]) + (s[2] + s[3]); }
SVE(vDSP_sve, float) SVE(vDSP_sveD, double)
#define EXT(NAME, T, START, EXPR) void NAME(const T *A, ptrdiff_t I, T *C, size_t N) { if (!C) outside(#NAME, "null output"); \
    T s = START; for (size_t i = 0; i < N; i++) { T a = A[(ptrdiff_t)i * I]; s = EXPR; } *C = s; }
EXT(vDSP_maxv, float, -INFINITY, a > s ? a : s)      EXT(vDSP_maxvD, double, -INFINITY, a > s ? a : s)
EXT(vDSP_minv, float, INFINITY, a < s ? a : s)       EXT(vDSP_minvD, double, INFINITY, a < s ? a : s)
EXT(vDSP_maxmgv, float, 0, fabsf(a) > s ? fabsf(a) : s)      EXT(vDSP_maxmgvD, double, 0, fabs(a) > s ? fabs(a) : s)
EXT(vDSP_minmgv, float, INFINITY, fabsf(a) < s ? fabsf(a) : s) EXT(vDSP_minmgvD, double, INFINITY, fabs(a) < s ? fabs(a) : s)
#define DOT(NAME, T) void NAME(const T *A, ptrdiff_t IA, const T *B, ptrdiff_t IB, T *C, size_t N) { if (!C) outside(#NAME, "null output"); \
    T s[4] = { 0, 0, 0, 0 }; for (size_t i = 0; i < N; i++) s[i % 4] += A[(ptrdiff_t)i * IA] * B[(ptrdiff_t)i * IB]; *C = (s[0] + s[1]) + (s[2] + s[3]); }
DOT(vDSP_dotpr, float) DOT(vDSP_dotprD, double)
