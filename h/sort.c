/* C26: pivoting and sorting permute exactly */
#include "mc.h"
#include "cfg.h"
#include "num.h"
#include "vecs.h"
const char *mc_name = "sort";
static armas_conf_t cf;
void mc_setup(void) {}
#define EXPECT(key, cond, ...) do { mc_cmp(1); if (!(cond)) { mc_fail(key, __VA_ARGS__); return; } } while (0)
static void conf(void) { cfg_t c = CFG_DEFAULT; cfg_set(&c); cf = *armas_conf_default(); cf.error = 0; }
static int cmpd(const void *a, const void *b) { double x = *(double *)a, y = *(double *)b; return x < y ? -1 : x > y; }
static void onesort(double *x, int n)
{
    int which = mc_choose("which", 3), dir = MC_PICK("dir", 1, -1), vk = n > 7 ? MC_PICK("layout", VC, VR) : mc_choose("layout", NVK);
    if (!mc_begin()) return;
    static const char *nm[] = {"sort_vec", "abs_sort_vec", "qsort_vec"}; char s[128] = ""; for (int i = 0; i < n && i < 16; i++) sprintf(s + strlen(s), " %g", x[i]);
    mc_note("%s dir=%d %s:%s", nm[which], dir, vkname[vk], s); mc_case_timeout(5);
    gm_t v; gv_new(&v, n, vk); for (int i = 0; i < n; i++) V(&v, i) = x[i]; gm_snap(&v);
    int rc = 0; if (which == 0) armas_sort_vec(&v.m, dir); else if (which == 1) armas_abs_sort_vec(&v.m, dir); else rc = armas_qsort_vec(&v.m, dir);
    mc_ops(1); gm_guard(&v, "vector"); EXPECT("rc", rc == 0, "returned %d", rc);
    double *y = mc_mem(sizeof(double) * (n + 1)), *z = mc_mem(sizeof(double) * (n + 1)); for (int i = 0; i < n; i++) y[i] = V(&v, i), z[i] = y[i];
    for (int i = 0; i + 1 < n; i++) { double p = which == 1 ? fabs(y[i]) : y[i], q = which == 1 ? fabs(y[i + 1]) : y[i + 1]; EXPECT("order", dir > 0 ? p <= q : p >= q, "element %d (%g) and %d (%g) out of order", i, p, i + 1, q); }
    qsort(z, n, 8, cmpd); qsort(x, n, 8, cmpd);
    for (int i = 0; i < n; i++) EXPECT("permutation", z[i] == x[i], "the result is not a permutation of the input");
    mc_outcome(mc_hash(y, 8 * n, which * 2 + dir));
}
static void eigvec(void)
{
    int n = mc_range("n", 1, 5), dir = MC_PICK("dir", 1, -1), mask = mc_choose("operands", 8), cv = mc_choose("Cvector", 2), lay = mc_choose("lay", 2), vk = mc_choose("layout", 3); double x[8];
    for (int i = 0; i < n; i++) x[i] = mc_range("x", -1, 2);
    if (!mc_begin()) return;
    mc_note("sort_eigenvec n=%d dir=%d operands=%d: %g %g %g %g %g", n, dir, mask, x[0], n > 1 ? x[1] : 0, n > 2 ? x[2] : 0, n > 3 ? x[3] : 0, n > 4 ? x[4] : 0);
    gm_t D, U, W, C; gv_new(&D, n, vk); gm_new(&U, 3, n, lay); gm_new(&W, n, 2, lay); if (cv) gv_new(&C, n, vk); else gm_new(&C, 2, n, lay);
    for (int i = 0; i < n; i++) V(&D, i) = x[i];
    for (int i = 0; i < n; i++) { for (int k = 0; k < 3; k++) G(&U, k, i) = 100 * k + 10 * x[i] + 1000 * i; for (int k = 0; k < 2; k++) G(&W, i, k) = G(&U, k, i); if (cv) V(&C, i) = G(&U, 0, i); else for (int k = 0; k < 2; k++) G(&C, k, i) = G(&U, k, i); }
    gm_snap(&D); gm_snap(&U); gm_snap(&W); gm_snap(&C);
    int rc = armas_sort_eigenvec(&D.m, mask & 1 ? &U.m : 0, mask & 2 ? &W.m : 0, mask & 4 ? &C.m : 0, dir); mc_ops(1);
    gm_guard(&D, "D"); if (mask & 1) gm_guard(&U, "U"); else gm_same(&U, "U"); if (mask & 2) gm_guard(&W, "V"); else gm_same(&W, "V"); if (mask & 4) gm_guard(&C, "C"); else gm_same(&C, "C");
    EXPECT("rc", rc == 0, "returned %d", rc);
    int used[8] = {0};
    for (int i = 0; i < n; i++) {
        if (i) EXPECT("order", dir > 0 ? V(&D, i - 1) <= V(&D, i) : V(&D, i - 1) >= V(&D, i), "values %d and %d out of order", i - 1, i);
        int src = mask & 1 ? (int)(G(&U, 0, i) - 10 * V(&D, i)) / 1000 : mask & 2 ? (int)(G(&W, i, 0) - 10 * V(&D, i)) / 1000 : mask & 4 ? (int)((cv ? V(&C, i) : G(&C, 0, i)) - 10 * V(&D, i)) / 1000 : -1;
        if (src < 0) continue;
        EXPECT("source", src < n && !used[src] && x[src] == V(&D, i), "vector %d does not belong to its value", i); used[src] = 1;
        if (mask & 1) for (int k = 0; k < 3; k++) EXPECT("columns", G(&U, k, i) == 100 * k + 10 * x[src] + 1000 * src, "column %d of U", i);
        if (mask & 2) for (int k = 0; k < 2; k++) EXPECT("rows", G(&W, i, k) == 100 * k + 10 * x[src] + 1000 * src, "row %d of V", i);
        if (mask & 4) for (int k = 0; k < (cv ? 1 : 2); k++) EXPECT("C", (cv ? V(&C, i) : G(&C, k, i)) == 100 * k + 10 * x[src] + 1000 * src, "C at %d", i);
    }
    qsort(x, n, 8, cmpd); for (int i = 0; i < n; i++) EXPECT("permutation", V(&D, i) == x[dir > 0 ? i : n - 1 - i], "not a permutation");
    mc_outcome(mc_hash(x, 8 * n, mask));
}
static void swp(dm A, int i, int j, int col) { for (int k = 0; k < (col ? A.r : A.c); k++) { double *x = col ? &AT(A, k, i) : &AT(A, i, k), *y = col ? &AT(A, k, j) : &AT(A, j, k), t = *x; *x = *y; *y = t; } }
static void ref(dm A, const int *P, int np, int kind, int back, int N)
{
    for (int q = 0; q < np; q++) {
        int k = back ? np - 1 - q : q, at = back ? N - 1 - q : q, to = P[k] - 1;
        if (to < 0) continue;
        if (kind != 1) swp(A, at, to, 0);
        if (kind != 0) swp(A, at, to, 1);
    }
}
static void pivot(void)
{
    int kind = mc_choose("kind", 4), m = mc_range("m", 1, mc_thorough ? 6 : 5), n = kind >= 2 ? m : mc_range("n", 1, 3), t, api = kind < 2 ? mc_choose("api", 2) : 0, lay = mc_choose("lay", 2), back = mc_choose("back", 2), P[8];
    if (kind == 1) t = m, m = n, n = t;
    int N = kind == 1 ? n : m, np = mc_range("np", 0, N);
    for (int i = 0; i < np; i++) P[i] = mc_range("P", kind >= 2 ? 1 : 0, N);
    if (!mc_begin()) return;
    conf(); mc_note("pivot kind=%d %dx%d back=%d np=%d: %d %d %d %d %d", kind, m, n, back, np, np > 0 ? P[0] : 0, np > 1 ? P[1] : 0, np > 2 ? P[2] : 0, np > 3 ? P[3] : 0, np > 4 ? P[4] : 0);
    gm_t A; gm_new(&A, m, n, lay); armas_pivot_t pv; armas_pivot_init(&pv, np > 0 ? np : 1); pv.npivots = np; for (int i = 0; i < np; i++) pv.indexes[i] = P[i];
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) G(&A, i, j) = i * 10 + j + (kind >= 2 && i < j ? 9 * (j - i) : 0);   /* symmetric for the triangular kinds */
    gm_snap(&A); dm R = dm_get(&A), A0 = dm_get(&A);
    static const int K[] = {ARMAS_PIVOT_ROWS, ARMAS_PIVOT_COLS, ARMAS_PIVOT_LOWER, ARMAS_PIVOT_UPPER};
    int rc = api ? kind ? armas_pivot_cols(&A.m, &pv, back, &cf) : armas_pivot_rows(&A.m, &pv, back, &cf) : armas_pivot(&A.m, &pv, K[kind] | (back ? ARMAS_PIVOT_BACKWARD : ARMAS_PIVOT_FORWARD), &cf);
    mc_ops(1); gm_guard(&A, "A"); ref(R, P, np, kind, back, N);
    EXPECT("rc", rc == 0, "returned %d error %d", rc, cf.error);
    for (int i = 0; i < np; i++) EXPECT("pivots-changed", pv.indexes[i] == P[i], "pivot %d changed", i);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
        int out = (kind == 2 && i < j) || (kind == 3 && i > j);
        EXPECT("permuted", G(&A, i, j) == (out ? AT(A0, i, j) : AT(R, i, j)), "element %d,%d is %g, expected %g", i, j, G(&A, i, j), out ? AT(A0, i, j) : AT(R, i, j));
    }
    if (np == N) {
        rc = armas_pivot(&A.m, &pv, K[kind] | (back ? ARMAS_PIVOT_FORWARD : ARMAS_PIVOT_BACKWARD), &cf); mc_ops(1);
        EXPECT("undo", rc == 0 && dm_dist(dm_get(&A), A0) == 0, "the opposite direction does not restore the matrix");
    }
    mc_outcome(mc_hash(R.e, 8 * m * n, kind)); armas_pivot_release(&pv);
}
void mc_body(void)
{
    int f = mc_choose("family", 5), n; double x[32];
    switch (f) {
    case 0: n = mc_range("n", 0, mc_sel(6, 7, 8)); for (int i = 0; i < n; i++) x[i] = mc_range("x", -2, n > 5 ? 1 : 2); onesort(x, n); break;
    case 1: n = mc_range("n", 8, mc_sel(11, 14, 16)); for (int i = 0; i < n; i++) x[i] = mc_range("x", 0, 1); onesort(x, n); break;
    case 2: n = 8; for (int i = 0; i < n; i++) x[i] = mc_range("x", -1, mc_thorough ? 2 : 1); onesort(x, n); break;
    case 3: eigvec(); break;
    case 4: pivot(); break;
    }
}
