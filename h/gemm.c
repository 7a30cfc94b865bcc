/* C06: general matrix multiply against a naive reference, exact on integers */
#include "mc.h"
#include "cfg.h"
const char *mc_name = "gemm";
void mc_setup(void) {}

static const cfg_t CF[] = {
    {64, 64, 160, 64, 1024, 256, 4096, 1024, 0},    /* KB 24 NB 8 MB 8 */
    {16, 32, 64, 64, 1024, 256, 4096, 1024, 0},
    {64, 32, 64, 64, 1024, 256, 8192, 2048, 0},
    {32, 64, 32, 64, 1024, 256, 16384, 1024, 0},
    {64, 64, 160, 64, 1024, 256, 256 * 1024, 32 * 1024, 0},
};
static const int SMALLSZ[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 15, 16, 17};
static const int MIDSZ[] = {1, 3, 4, 7, 8, 9, 16, 17, 23, 24, 25, 31, 47, 50};
static const int BIGMN[] = {1, 4, 19, 21, 40, 79, 80, 83, 161};
static const int BIGK[] = {1, 7, 8, 199, 200, 203, 401};

static void one(int m, int n, int k, int flags, double alpha, double beta, int lay, int cfg)
{
    if (!mc_begin()) return;
    cfg_set(&CF[cfg]); cfg_poison_cbuf();
    mc_note("m=%d n=%d k=%d flags=0x%x alpha=%g beta=%g layout=%d cfg=%d", m, n, k, flags, alpha, beta, lay, cfg);
    int ta = (flags & (ARMAS_TRANSA | ARMAS_CTRANSA)) != 0, tb = (flags & (ARMAS_TRANSB | ARMAS_CTRANSB)) != 0;
    gm_t A, B, C;
    gm_new(&A, ta ? k : m, ta ? m : k, lay);
    gm_new(&B, tb ? n : k, tb ? k : n, lay == LT ? LT : LROW);
    gm_new(&C, m, n, lay);
    gm_ints(&A, 1, -4, 5); gm_ints(&B, 2, -5, 4); gm_ints(&C, 3, -9, 9);
    if (beta == 0) for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if ((i + j) & 1) G(&C, i, j) = mc_canary();
    gm_snap(&A); gm_snap(&B); gm_snap(&C);
    armas_conf_t cf = *armas_conf_default();
    int rc = armas_mult(beta, &C.m, alpha, &A.m, &B.m, flags, &cf);
    mc_ops(1);
    if (rc != 0) { mc_fail("rc", "armas_mult returned %d error %d", rc, cf.error); return; }
    gm_same(&A, "A"); gm_same(&B, "B"); gm_guard(&C, "C");
    int aa = (flags & ARMAS_ABSA) != 0, ab = (flags & ARMAS_ABSB) != 0;
    uint64_t h = 0;
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
        double s = 0;
        for (int p = 0; p < k; p++) {
            double a = ta ? G(&A, p, i) : G(&A, i, p), b = tb ? G(&B, j, p) : G(&B, p, j);
            if (aa) a = fabs(a);
            if (ab) b = fabs(b);
            s += a * b;
        }
        double e = (beta == 0 ? 0 : beta * S(&C, i, j)) + alpha * s;
        double g = G(&C, i, j);
        if (!(g == e)) { mc_fail("value", "C[%d,%d] = %.17g, expected %.17g", i, j, g, e); return; }
        h = h * 31 + (int64_t)g;
    }
    mc_cmp(m * n); mc_outcome(h);
}
static const int TF[] = {0, ARMAS_TRANSA, ARMAS_TRANSB, ARMAS_TRANSA | ARMAS_TRANSB};
static const int AF[] = {0, ARMAS_ABSA | ARMAS_ABSB};

void mc_body(void)
{
    switch (mc_choose("suite", 5)) {
    case 0: {  /* all small shapes, all coefficients */
        int mx = mc_sel(10, 17, 24);
        int m = mc_range("m", 1, mx), n = mc_range("n", 1, mx), k = mc_range("k", 1, mx);
        int f = mc_pickv("trans", TF, 4) | mc_pickv("abs", AF, 2);
        double alpha = MC_PICKD("alpha", 1, 0, -2), beta = MC_PICKD("beta", 1, 0, 3);
        one(m, n, k, f, alpha, beta, mc_choose("layout", 2), 0);
        break; }
    case 1: {  /* block edges of the small cache configurations */
        const int *sz = mc_thorough ? MIDSZ : MIDSZ; int ns = ITEM(MIDSZ);
        int cfg = mc_choose("cfg", 4);
        int m = mc_pickv("m", sz, ns), n = mc_pickv("n", sz, ns), k = mc_pickv("k", sz, ns);
        int f = mc_pickv("trans", TF, 4) | (mc_thorough ? mc_pickv("abs", AF, 2) : 0);
        one(m, n, k, f, MC_PICKD("alpha", -2), MC_PICKD("beta", 1, 0), LP, cfg);
        break; }
    case 2: {  /* block edges of the default configuration */
        int m = mc_pickv("m", BIGMN, ITEM(BIGMN)), n = mc_pickv("n", BIGMN, ITEM(BIGMN)), k = mc_pickv("k", BIGK, ITEM(BIGK));
        int f = mc_pickv("trans", TF, 4);
        one(m, n, k, f, 2, -1, mc_thorough ? mc_choose("layout", 2) : LP, 4);
        break; }
    case 3: {  /* medium shapes, every pair of kernel tails */
        int m = mc_pickv("m", SMALLSZ, ITEM(SMALLSZ)), n = mc_pickv("n", SMALLSZ, ITEM(SMALLSZ)), k = mc_range("k", 1, mc_sel(26, 40, 70));
        int f = mc_pickv("trans", TF, 4) | mc_pickv("abs", AF, 2) ;
        one(m, n, k, f, -1, 2, LP, 4);
        break; }
    case 4: {  /* vector-like and conjugate flags (identical to transpose for reals) */
        int f = MC_PICK("ctrans", ARMAS_CTRANSA, ARMAS_CTRANSB, ARMAS_CTRANSA | ARMAS_CTRANSB, ARMAS_CTRANSA | ARMAS_TRANSB, ARMAS_TRANSA | ARMAS_CTRANSB);
        int m = MC_PICK("m", 1, 2, 5, 8, 33, 130), n = MC_PICK("n", 1, 2, 5, 8, 33, 130), k = MC_PICK("k", 1, 2, 5, 8, 33, 260);
        one(m, n, k, f, 1, MC_PICKD("beta", 0, 1), LP, 4);
        break; }
    }
}
