/* naive reference arithmetic for the factorisation harnesses: plain column-major double arrays,
 * sums in long double, memory from mc_mem (freed at the end of the case) */
#ifndef NUM_H
#define NUM_H
#include <float.h>
typedef struct { int r, c; double *e; } dm;
#define AT(A,i,j) ((A).e[(long)(j)*(A).r + (i)])
static inline dm dm_new(int r, int c) { dm a = {r, c, mc_mem(sizeof(double) * ((long)r * c + 1))}; memset(a.e, 0, sizeof(double) * ((long)r * c + 1)); return a; }
static inline dm dm_eye(int n) { dm a = dm_new(n, n); for (int i = 0; i < n; i++) AT(a, i, i) = 1; return a; }
static inline dm dm_get(gm_t *g) { dm a = dm_new(g->m.rows, g->m.cols); for (int j = 0; j < a.c; j++) for (int i = 0; i < a.r; i++) AT(a, i, j) = G(g, i, j); return a; }
static inline void dm_put(gm_t *g, dm a) { for (int j = 0; j < a.c; j++) for (int i = 0; i < a.r; i++) G(g, i, j) = AT(a, i, j); }
static inline dm dm_t(dm a) { dm t = dm_new(a.c, a.r); for (int j = 0; j < a.c; j++) for (int i = 0; i < a.r; i++) AT(t, j, i) = AT(a, i, j); return t; }
static inline dm dm_copy(dm a) { dm t = dm_new(a.r, a.c); memcpy(t.e, a.e, sizeof(double) * a.r * a.c); return t; }
static inline dm dm_mul(dm a, dm b)
{
    dm c = dm_new(a.r, b.c);
    for (int j = 0; j < b.c; j++) for (int i = 0; i < a.r; i++) { long double s = 0; for (int k = 0; k < a.c; k++) s += (long double)AT(a, i, k) * AT(b, k, j); AT(c, i, j) = s; }
    return c;
}
static inline dm dm_sub(dm a, dm b) { dm c = dm_new(a.r, a.c); for (long k = 0; k < (long)a.r * a.c; k++) c.e[k] = a.e[k] - b.e[k]; return c; }
static inline double dm_max(dm a) { double m = 0; for (long k = 0; k < (long)a.r * a.c; k++) { double v = fabs(a.e[k]); if (!(v <= m)) m = v; if (isnan(v)) return INFINITY; } return m; }
static inline double dm_dist(dm a, dm b) { return a.r != b.r || a.c != b.c ? INFINITY : dm_max(dm_sub(a, b)); }
static inline dm dm_sel(dm a, int r0, int c0, int r, int c) { dm t = dm_new(r, c); for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) AT(t, i, j) = AT(a, r0 + i, c0 + j); return t; }
static inline double dm_orth(dm q) /* columns orthonormal? */
{ dm e = dm_mul(dm_t(q), q); for (int i = 0; i < e.r; i++) AT(e, i, i) -= 1; return dm_max(e); }
static inline dm dm_house(int n, const double *v, double tau) /* I - tau v v' */
{ dm h = dm_eye(n); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) AT(h, i, j) -= tau * v[i] * v[j]; return h; }
/* deterministic input patterns; square or not.  Patterns are chosen to hit special cases */
enum { P_RAND, P_ZERO, P_EYE, P_RANK1, P_COL0, P_ROW0, P_UPPER, P_LOWER, P_TINY, P_HUGE, P_INT, P_DUP, P_NEG, NPAT };
static const char *pat_name[] = {"random", "zero", "identity", "rank one", "zero first column", "zero last row", "upper", "lower", "tiny", "huge", "small integers", "equal columns", "negative identity"};
static inline void pat_fill(gm_t *g, int pat, int seed)
{
    int r = g->m.rows, c = g->m.cols; gm_rand(g, seed);
    for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) {
        double *e = &G(g, i, j);
        switch (pat) {
        case P_ZERO: *e = 0; break;
        case P_EYE: *e = i == j; break;
        case P_NEG: *e = i == j ? -2.0 : 0; break;
        case P_RANK1: *e = (i + 1) * (j - 1.5); break;
        case P_COL0: if (j == 0) *e = 0; break;
        case P_ROW0: if (i == r - 1) *e = 0; break;
        case P_UPPER: if (i > j) *e = 0; break;
        case P_LOWER: if (i < j) *e = 0; break;
        case P_TINY: *e *= 1e-170; break;
        case P_HUGE: *e *= 1e150; break;
        case P_INT: *e = (int)(*e * 3); break;
        case P_DUP: if (j > 0) *e = G(g, i, 0); break;
        }
    }
}
#endif
