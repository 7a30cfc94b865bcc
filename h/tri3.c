/* C08: triangular multiply and solve */
#include "mc.h"
#include "cfg.h"
const char *mc_name = "tri3";
void mc_setup(void) {}
static const cfg_t CF[] = {
    {64, 64, 160, 64, 1024, 256, 4096, 1024, 0},
    {16, 32, 64, 64, 1024, 4, 4096, 1024, 0},
    {64, 32, 64, 64, 1024, 8, 8192, 2048, 0},
    {64, 64, 160, 64, 1024, 256, 256 * 1024, 32 * 1024, 0},
    {32, 16, 32, 64, 1024, 1, 16384, 1024, 0},
};
static double aval(gm_t *A, int flags, int i, int j)   /* op(A)[i,j] */
{
    if (flags & (ARMAS_TRANSA)) { int t = i; i = j; j = t; }
    if (i == j && (flags & ARMAS_UNIT)) return 1;
    if ((flags & ARMAS_UPPER) ? i > j : i < j) return 0;
    return G(A, i, j);
}
static void one(int solve, int n, int m, int flags, double alpha, int opt, int lay, int cfg)
{
    if (!mc_begin()) return;
    cfg_set(&CF[cfg]); cfg_poison_cbuf();
    mc_note("%s n=%d m=%d flags=0x%x alpha=%g opt=0x%x layout=%d cfg=%d", solve ? "solve_trm" : "mult_trm", n, m, flags, alpha, opt, lay, cfg);
    int right = (flags & ARMAS_RIGHT) != 0;
    gm_t A, B, X; int r = right ? m : n, c = right ? n : m;
    gm_new(&A, n, n, lay);
    if (n <= 24) gm_ints(&A, 4, -2, 2); else gm_ints(&A, 4, -1, 1);
    static const double dg[] = {1, -2, 2, -1, 4, 0.5};
    for (int i = 0; i < n; i++) G(&A, i, i) = solve ? dg[i % 6] : (i % 5) - 2;
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++)
        if ((flags & ARMAS_UPPER) ? i > j : i < j) G(&A, i, j) = mc_canary();
        else if (i == j && (flags & ARMAS_UNIT)) G(&A, i, j) = mc_canary();
    gm_new(&X, r, c, LT); gm_ints(&X, 5, -4, 4);
    gm_new(&B, r, c, lay);
    /* P = op(A) X or X op(A) */
    double *P = mc_mem(sizeof(double) * r * c);
    for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) {
        double s = 0;
        for (int p = 0; p < n; p++) {
            double a = right ? aval(&A, flags, p, j) : aval(&A, flags, i, p);
            s += a * (right ? G(&X, i, p) : G(&X, p, j));
        }
        P[i + j * r] = s;
        G(&B, i, j) = solve ? s : G(&X, i, j);
    }
    gm_snap(&A); gm_snap(&B);
    armas_conf_t cf = *armas_conf_default(); cf.optflags = opt;
    int rc = solve ? armas_solve_trm(&B.m, alpha, &A.m, flags, &cf) : armas_mult_trm(&B.m, alpha, &A.m, flags, &cf);
    mc_ops(1);
    if (rc) { mc_fail("rc", "returned %d error %d", rc, cf.error); return; }
    gm_same(&A, "A"); gm_guard(&B, "B");
    uint64_t h = 0;
    for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) {
        double e = alpha * (solve ? G(&X, i, j) : P[i + j * r]), g = G(&B, i, j);
        if (!(g == e)) { mc_fail(solve ? "solve-value" : "mult-value", "B[%d,%d] = %.17g, expected %.17g", i, j, g, e); return; }
        h = h * 31 + (int64_t)(4 * e);
    }
    mc_cmp(r * c);
    if (!solve && alpha != 0) return mc_outcome(h);
    mc_outcome(h);
}
static const int NS[] = {1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 18, 23, 24, 25, 31, 32, 33, 49};
static const int MS[] = {1, 2, 3, 4, 5, 7, 8, 9, 13, 17, 26};
static const int BIG[] = {31, 64, 79, 80, 81, 130, 170};
void mc_body(void)
{
    int solve = mc_choose("op", 2), suite = mc_choose("suite", 3);
    int flags = MC_PICK("tri", ARMAS_UPPER, ARMAS_LOWER) | MC_PICK("side", ARMAS_LEFT, ARMAS_RIGHT) | MC_PICK("trans", 0, ARMAS_TRANSA) | MC_PICK("unit", 0, ARMAS_UNIT);
    int opt = MC_PICK("opt", 0, ARMAS_ORECURSIVE, ARMAS_ONAIVE);
    if (suite == 0) {
        int n = mc_range("n", 1, mc_sel(11, 20, 28)), m = mc_range("m", 1, mc_sel(9, 14, 18));
        one(solve, n, m, flags, MC_PICKD("alpha", 1, -2, 0.5, 0), opt, mc_choose("layout", 2), MC_PICK("cfg", 0, 3));
    } else if (suite == 1) {
        int cfg = MC_PICK("cfg", 0, 1, 2, 4);
        one(solve, mc_pickv("n", NS, ITEM(NS)), mc_pickv("m", MS, ITEM(MS)), flags, MC_PICKD("alpha", 1, -2), opt, LP, cfg);
    } else one(solve, mc_pickv("n", BIG, ITEM(BIG)), MC_PICK("m", 1, 6, 81, 161), flags, 2, opt, LP, 3);
}
