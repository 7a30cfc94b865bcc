/* C07: symmetric multiply, rank-k / rank-2k / triangular updates */
#include "mc.h"
#include "cfg.h"
const char *mc_name = "sym3";
void mc_setup(void) {}
static const cfg_t CF[] = {
    {64, 64, 160, 64, 1024, 256, 4096, 1024, 0},
    {16, 32, 64, 64, 1024, 4, 4096, 1024, 0},
    {64, 32, 64, 64, 1024, 8, 8192, 2048, 0},
    {64, 64, 160, 64, 1024, 256, 256 * 1024, 32 * 1024, 0},
    {32, 16, 32, 64, 1024, 1, 16384, 1024, 0},
};
static double el(gm_t *g, int t, int i, int j) { return t ? G(g, j, i) : G(g, i, j); }
/* make the triangle not selected by flags unreadable */
static void poison_tri(gm_t *A, int flags, int diag)
{
    for (int j = 0; j < A->m.cols; j++) for (int i = 0; i < A->m.rows; i++)
        if ((flags & ARMAS_UPPER) ? (i > j) : (i < j)) G(A, i, j) = mc_canary();
        else if (diag && i == j) G(A, i, j) = mc_canary();
}
static int in_tri(int flags, int i, int j)
{
    if (flags & ARMAS_UPPER) return i <= j;
    if (flags & ARMAS_LOWER) return i >= j;
    return 1;
}
static const int TRI[] = {ARMAS_UPPER, ARMAS_LOWER};
static void prep(const cfg_t *c) { cfg_set(c); cfg_poison_cbuf(); }
static void symm(int n, int m, int flags, double alpha, double beta, int lay, int cfg)
{
    if (!mc_begin()) return;
    prep(&CF[cfg]);
    mc_note("mult_sym n=%d m=%d flags=0x%x alpha=%g beta=%g layout=%d cfg=%d", n, m, flags, alpha, beta, lay, cfg);
    int right = (flags & ARMAS_RIGHT) != 0, tb = (flags & ARMAS_TRANSB) != 0;
    gm_t A, B, C; int cr = right ? m : n, cc = right ? n : m;
    gm_new(&A, n, n, lay); gm_ints(&A, 4, -4, 4); poison_tri(&A, flags, 0);
    gm_new(&B, tb ? cc : cr, tb ? cr : cc, lay); gm_ints(&B, 5, -4, 5);
    gm_new(&C, cr, cc, lay); gm_ints(&C, 6, -9, 9);
    if (beta == 0) for (int j = 0; j < cc; j++) for (int i = 0; i < cr; i++) G(&C, i, j) = mc_canary();
    gm_snap(&A); gm_snap(&B); gm_snap(&C);
    armas_conf_t cf = *armas_conf_default();
    int rc = armas_mult_sym(beta, &C.m, alpha, &A.m, &B.m, flags, &cf); mc_ops(1);
    if (rc) { mc_fail("rc", "armas_mult_sym returned %d error %d", rc, cf.error); return; }
    gm_same(&A, "A"); gm_same(&B, "B"); gm_guard(&C, "C");
    uint64_t h = 0;
    for (int j = 0; j < cc; j++) for (int i = 0; i < cr; i++) {
        double s = 0;
        for (int p = 0; p < n; p++) {
            int a = right ? p : i, b = right ? j : p;
            double av = in_tri(flags, a, b) ? G(&A, a, b) : G(&A, b, a);
            s += av * (right ? el(&B, tb, i, p) : el(&B, tb, p, j));
        }
        double e = (beta == 0 ? 0 : beta * S(&C, i, j)) + alpha * s;
        if (!(G(&C, i, j) == e)) { mc_fail("value", "C[%d,%d] = %.17g, expected %.17g", i, j, G(&C, i, j), e); return; }
        h = h * 31 + (int64_t)e;
    }
    mc_cmp(cr * cc); mc_outcome(h);
}
/* kind 0: rank-k, 1: rank-2k, 2: update_trm (r x c result) */
static void upd(int kind, int r, int c, int k, int flags, double alpha, double beta, int opt, int lay, int cfg)
{
    if (!mc_begin()) return;
    prep(&CF[cfg]);
    mc_note("%s r=%d c=%d k=%d flags=0x%x alpha=%g beta=%g opt=0x%x layout=%d cfg=%d", kind == 0 ? "update_sym" : kind == 1 ? "update2_sym" : "update_trm", r, c, k, flags, alpha, beta, opt, lay, cfg);
    int ta = (flags & ARMAS_TRANSA) != 0, tb = (flags & ARMAS_TRANSB) != 0;
    gm_t A, B, C;
    gm_new(&A, ta ? k : r, ta ? r : k, lay); gm_ints(&A, 7, -4, 4);
    if (kind == 2) { gm_new(&B, tb ? c : k, tb ? k : c, lay); gm_ints(&B, 8, -4, 4); }
    else if (kind == 1) { gm_new(&B, ta ? k : r, ta ? r : k, lay); gm_ints(&B, 8, -4, 4); }
    gm_new(&C, r, c, lay); gm_ints(&C, 9, -9, 9);
    if (beta == 0) for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) G(&C, i, j) = mc_canary();
    poison_tri(&C, flags, 0);
    gm_snap(&A); if (kind) gm_snap(&B); gm_snap(&C);
    armas_conf_t cf = *armas_conf_default(); cf.optflags = opt;
    int rc = kind == 0 ? armas_update_sym(beta, &C.m, alpha, &A.m, flags, &cf)
           : kind == 1 ? armas_update2_sym(beta, &C.m, alpha, &A.m, &B.m, flags, &cf)
                       : armas_update_trm(beta, &C.m, alpha, &A.m, &B.m, flags, &cf);
    mc_ops(1);
    if (rc) { mc_fail("rc", "returned %d error %d", rc, cf.error); return; }
    gm_same(&A, "A"); if (kind) gm_same(&B, "B"); gm_guard(&C, "C");
    uint64_t h = 0;
    for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) {
        if (!in_tri(flags, i, j)) {
            if (!mc_biteq(G(&C, i, j), S(&C, i, j))) { mc_fail("other-triangle", "C[%d,%d] outside the selected part changed to %.17g", i, j, G(&C, i, j)); return; }
            continue;
        }
        double s = 0;
        for (int p = 0; p < k; p++) {
            if (kind == 0) s += el(&A, ta, i, p) * el(&A, ta, j, p);
            else if (kind == 1) s += el(&A, ta, i, p) * el(&B, ta, j, p) + el(&B, ta, i, p) * el(&A, ta, j, p);
            else s += el(&A, ta, i, p) * el(&B, tb, p, j);
        }
        double e = (beta == 0 ? 0 : beta * S(&C, i, j)) + alpha * s;
        if (!(G(&C, i, j) == e)) { mc_fail("value", "C[%d,%d] = %.17g, expected %.17g", i, j, G(&C, i, j), e); return; }
        h = h * 31 + (int64_t)e;
    }
    mc_cmp(r * c); mc_outcome(h);
}
static const int NS[] = {1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 23, 24, 25, 33, 49};
static const int MS[] = {1, 2, 3, 4, 5, 7, 8, 9, 13, 17, 26};
static const int BIG[] = {1, 5, 79, 80, 81, 130, 170};
void mc_body(void)
{
    int kind = mc_choose("op", 4);
    int suite = mc_choose("suite", 3);
    if (kind == 0) {
        int flags = mc_pickv("tri", TRI, 2) | MC_PICK("side", ARMAS_LEFT, ARMAS_RIGHT, 0) | MC_PICK("trans", 0, ARMAS_TRANSB);
        if (suite == 0) {
            int n = mc_range("n", 1, mc_sel(10, 18, 26)), m = mc_range("m", 1, mc_sel(9, 14, 18));
            symm(n, m, flags, MC_PICKD("alpha", 1, 0, -2), MC_PICKD("beta", 1, 0, 3), mc_choose("layout", 2), MC_PICK("cfg", 0, 3));
        } else if (suite == 1) {
            int cfg = MC_PICK("cfg", 0, 1, 2, 4);
            symm(mc_pickv("n", NS, ITEM(NS)), mc_pickv("m", MS, ITEM(MS)), flags, 2, MC_PICKD("beta", -1, 0), LP, cfg);
        } else {
            symm(mc_pickv("n", BIG, ITEM(BIG)), MC_PICK("m", 1, 6, 79, 81, 161), flags, -1, 2, LP, 3);
        }
        return;
    }
    int flags = mc_pickv("tri", TRI, 2);
    int opts = MC_PICK("opt", 0, ARMAS_ORECURSIVE, ARMAS_ONAIVE);
    if (kind == 3) {
        flags |= MC_PICK("ta", 0, ARMAS_TRANSA) | MC_PICK("tb", 0, ARMAS_TRANSB);
        if (suite == 0) {
            int mx = mc_sel(7, 12, 16);
            int r = mc_range("r", 1, mx), c = mc_range("c", 1, mx), k = mc_range("k", 1, mc_thorough ? 9 : 5);
            upd(2, r, c, k, flags, MC_PICKD("alpha", 1, 0, -2), MC_PICKD("beta", 1, 0, 3), opts, LP, MC_PICK("cfg", 0, 1));
        } else if (suite == 1) {
            int cfg = MC_PICK("cfg", 0, 1, 2, 4);
            upd(2, mc_pickv("r", NS, ITEM(NS)), mc_pickv("c", NS, ITEM(NS)), MC_PICK("k", 1, 3, 8, 25), flags, 2, MC_PICKD("beta", -1, 0), opts, LP, cfg);
        } else upd(2, mc_pickv("r", BIG, ITEM(BIG)), mc_pickv("c", BIG, ITEM(BIG)), MC_PICK("k", 2, 203), flags, 2, 1, opts, LP, 3);
        return;
    }
    flags |= MC_PICK("trans", 0, ARMAS_TRANSA);
    if (suite == 0) {
        int n = mc_range("n", 1, mc_sel(11, 18, 26)), k = mc_range("k", 1, mc_sel(7, 12, 16));
        upd(kind - 1, n, n, k, flags, MC_PICKD("alpha", 1, 0, -2), MC_PICKD("beta", 1, 0, 3), opts, mc_choose("layout", 2), MC_PICK("cfg", 0, 1));
    } else if (suite == 1) {
        int cfg = MC_PICK("cfg", 0, 1, 2, 4); int n = mc_pickv("n", NS, ITEM(NS));
        upd(kind - 1, n, n, mc_pickv("k", MS, ITEM(MS)), flags, 2, MC_PICKD("beta", -1, 0), opts, LP, cfg);
    } else { int n = mc_pickv("n", BIG, ITEM(BIG)); upd(kind - 1, n, n, MC_PICK("k", 2, 203), flags, 2, 1, opts, LP, 3); }
}
