/* C09: level-1 and level-2 operations */
#include "mc.h"
#include "cfg.h"
#include "vecs.h"
const char *mc_name = "vec";
void mc_setup(void) {}
static const cfg_t CF[] = {
    {64, 64, 160, 64, 1024, 256, 256 * 1024, 32 * 1024, 0},
    {64, 64, 160, 64, 4, 4, 256 * 1024, 32 * 1024, 0},
    {64, 64, 160, 64, 1, 1, 256 * 1024, 32 * 1024, 0},
    {64, 64, 160, 64, 2, 2, 256 * 1024, 32 * 1024, 0},
    {64, 64, 160, 64, 8, 8, 256 * 1024, 32 * 1024, 0},
    {64, 64, 160, 64, 3, 5, 256 * 1024, 32 * 1024, 0},
};
static const double AL[] = {1, -2, 0.5, 0};
static armas_conf_t cf;
static int rcok(int rc) { mc_ops(1); if (rc) { mc_fail("rc", "returned %d error %d", rc, cf.error); return 0; } return 1; }
static int near(double g, double e) { return fabs(g - e) <= 1e-14 * fabs(e) || g == e; }
#define EXPECT(key, cond, ...) do { mc_cmp(1); if (!(cond)) { mc_fail(key, __VA_ARGS__); return; } } while (0)
enum { DOT, ADOT, AXPY, AXPBY, ASUM, NRM2, AMAX, SWAP, COPY, SCALE, NL1 };
static const char *l1n[] = {"dot", "adot", "axpy", "axpby", "asum", "nrm2", "amax", "swap", "copy", "scale"};
static void level1(int op, int n, int kx, int ky, double alpha, double beta, int opt, int cfg)
{
    if (!mc_begin()) return;
    cfg_set(&CF[cfg]);
    mc_note("%s n=%d x=%s y=%s alpha=%g beta=%g opt=0x%x cfg=%d", l1n[op], n, vkname[kx], vkname[ky], alpha, beta, opt, cfg);
    gm_t X, Y; gv_new(&X, n, kx); gv_new(&Y, n, ky);
    gv_ints(&X, 3 + n, -9, 9); gv_ints(&Y, 5 + n, -9, 9);
    gm_snap(&X); gm_snap(&Y);
    cf = *armas_conf_default(); cf.optflags = opt; cf.error = 0;
    double s = 0, r; uint64_t h = op;
    switch (op) {
    case DOT: case ADOT:
        for (int i = 0; i < n; i++) s += V(&X, i) * V(&Y, i);
        if (op == DOT) { r = armas_dot(&X.m, &Y.m, &cf); mc_ops(1); }
        else { r = 7; if (!rcok(armas_adot(&r, alpha, &X.m, &Y.m, &cf))) return; s = 7 + alpha * s; }
        EXPECT("dot-value", r == s, "got %.17g, expected %.17g", r, s);
        gm_same(&X, "x"); gm_same(&Y, "y"); h = h * 31 + (int64_t)(4 * s);
        break;
    case AXPY: case AXPBY:
        if (!rcok(op == AXPY ? armas_axpy(&Y.m, alpha, &X.m, &cf) : armas_axpby(beta, &Y.m, alpha, &X.m, &cf))) return;
        if (op == AXPY) beta = 1;
        for (int i = 0; i < n; i++) { double e = beta * VS(&Y, i) + alpha * V(&X, i); EXPECT("axpy-value", V(&Y, i) == e, "y[%d] = %.17g, expected %.17g", i, V(&Y, i), e); h = h * 31 + (int64_t)(4 * e); }
        gm_same(&X, "x"); gm_guard(&Y, "y");
        break;
    case ASUM:
        for (int i = 0; i < n; i++) s += fabs(V(&X, i));
        r = armas_asum(&X.m, &cf); mc_ops(1);
        EXPECT("asum-value", r == s, "got %.17g, expected %.17g", r, s); gm_same(&X, "x"); h = h * 31 + (int64_t)s;
        break;
    case NRM2: {
        double sc = alpha == 0 ? 1e-300 : alpha == 1 ? 1 : alpha < 0 ? 1e300 : 1e-160;
        for (int i = 0; i < n; i++) { s += V(&X, i) * V(&X, i); V(&X, i) *= sc; }
        s = sqrt(s) * sc;
        r = armas_nrm2(&X.m, &cf); mc_ops(1);
        EXPECT("nrm2-value", near(r, s), "got %.17g, expected %.17g", r, s); h = mc_hash(&s, 8, h);
        break; }
    case AMAX: {
        int im = 0;
        for (int i = 0; i < n; i++) if (fabs(V(&X, i)) > fabs(V(&X, im))) im = i;
        if (n == 0) { EXPECT("amax-empty", armas_amax(&X.m, &cf) == 0, "amax of an empty vector is not zero"); EXPECT("iamax-empty", armas_iamax(&X.m, &cf) < 0, "iamax of an empty vector is not negative"); return; }
        int g = armas_iamax(&X.m, &cf); mc_ops(1);
        EXPECT("iamax", g == im, "got %d, expected %d", g, im);
        r = armas_amax(&X.m, &cf); mc_ops(1);
        EXPECT("amax", r == fabs(V(&X, im)), "got %g, expected %g", r, fabs(V(&X, im)));
        gm_same(&X, "x"); h = h * 31 + im;
        break; }
    case SWAP:
        if (!rcok(armas_swap(&Y.m, &X.m, &cf))) return;
        for (int i = 0; i < n; i++) { EXPECT("swap-value", V(&X, i) == VS(&Y, i) && V(&Y, i) == VS(&X, i), "element %d", i); h = h * 31 + (int64_t)V(&X, i); }
        gm_guard(&X, "x"); gm_guard(&Y, "y");
        break;
    case COPY:
        if (!rcok(armas_copy(&Y.m, &X.m, &cf))) return;
        for (int i = 0; i < n; i++) { EXPECT("copy-value", V(&Y, i) == V(&X, i), "element %d is %g, expected %g", i, V(&Y, i), V(&X, i)); h = h * 31 + (int64_t)V(&X, i); }
        gm_same(&X, "x"); gm_guard(&Y, "y");
        break;
    case SCALE:
        if (!rcok(armas_scale(&X.m, alpha, &cf))) return;
        for (int i = 0; i < n; i++) { double e = VS(&X, i) * alpha; EXPECT("scale-value", V(&X, i) == e, "x[%d] = %g, expected %g", i, V(&X, i), e); h = h * 31 + (int64_t)(2 * e); }
        gm_guard(&X, "x");
        break;
    }
    mc_outcome(h);
}
/* index of maximum: every vector over a small alphabet */
static void amaxall(int n, int kx, const int *v)
{
    if (!mc_begin()) return;
    gm_t X; gv_new(&X, n, kx);
    int im = 0; double s = 0;
    for (int i = 0; i < n; i++) { V(&X, i) = v[i]; s += abs(v[i]); if (abs(v[i]) > abs(v[im])) im = i; }
    cf = *armas_conf_default();
    int g = armas_iamax(&X.m, &cf); mc_ops(3);
    EXPECT("iamax", g == im, "got %d, expected %d", g, im);
    double r = armas_amax(&X.m, &cf);
    EXPECT("amax", r == abs(v[im]), "got %g", r);
    r = armas_asum(&X.m, &cf);
    EXPECT("asum", r == s, "got %g expected %g", r, s);
    s = 0; for (int i = 0; i < n; i++) s += v[i] * v[i];
    r = armas_nrm2(&X.m, &cf); EXPECT("nrm2", near(r, sqrt(s)), "got %.17g expected %.17g", r, sqrt(s));
    mc_outcome(im * 77 + n);
}
enum { GEMV, GER, SYMV, SYR, SYR2, TRMV, TRSV, UPD, NL2 };
static const char *l2n[] = {"mvmult", "mvupdate", "mvmult_sym", "mvupdate_sym", "mvupdate2_sym", "mvmult_trm", "mvsolve_trm", "mvupdate_trm"};
static void level2(int op, int m, int n, int flags, int kx, int ky, int lay, double alpha, double beta, int opt, int cfg)
{
    if (!mc_begin()) return;
    cfg_set(&CF[cfg]);
    mc_note("%s m=%d n=%d flags=0x%x x=%s y=%s layout=%d alpha=%g beta=%g opt=0x%x cfg=%d", l2n[op], m, n, flags, vkname[kx], vkname[ky], lay, alpha, beta, opt, cfg);
    gm_t A, X, Y; gm_new(&A, m, n, lay);
    int tr = (flags & ARMAS_TRANSA) != 0, up = (flags & ARMAS_UPPER) != 0;
    int nx = op == GEMV ? (tr ? m : n) : op == GER || op == UPD ? m : n;
    int ny = op == GEMV ? (tr ? n : m) : n;
    gv_new(&X, nx, kx); gv_new(&Y, ny, ky);
    gm_ints(&A, 4, -3, 3); gv_ints(&X, 3 + m, -4, 4); gv_ints(&Y, 5 + n, -4, 4);
    cf = *armas_conf_default(); cf.optflags = opt; cf.error = 0;
    uint64_t h = op * 17 + flags;
    double *e = mc_mem(sizeof(double) * (m * n + m + n + 1));
    int sym = op == SYMV || op == SYR || op == SYR2, trm = op == TRMV || op == TRSV;
    if (op == TRSV) { static const double dg[] = {1, -2, 2, -1, 4, 0.5}; for (int i = 0; i < n; i++) G(&A, i, i) = dg[i % 6]; }
    if (sym || trm || op == UPD)
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++)
            if ((up ? i > j : i < j) || (trm && i == j && (flags & ARMAS_UNIT))) G(&A, i, j) = mc_canary();
    if (op == GEMV && beta == 0) for (int i = 0; i < ny; i++) V(&Y, i) = mc_canary();
    if (op == SYMV && beta == 0) for (int i = 0; i < ny; i++) V(&Y, i) = mc_canary();
    gm_snap(&A); gm_snap(&X); gm_snap(&Y);
#define SA(i,j) ((up ? (i) <= (j) : (i) >= (j)) ? S(&A, i, j) : S(&A, j, i))
    switch (op) {
    case GEMV: case SYMV: {
        int ab = (flags & ARMAS_ABS) != 0;
        for (int i = 0; i < ny; i++) {
            double s = 0;
            for (int k = 0; k < nx; k++) { double a = op == SYMV ? SA(i, k) : tr ? S(&A, k, i) : S(&A, i, k); s += ab ? fabs(a) * fabs(V(&X, k)) : a * V(&X, k); }
            e[i] = (beta == 0 ? 0 : beta * VS(&Y, i)) + alpha * s;
        }
        if (!rcok(op == GEMV ? armas_mvmult(beta, &Y.m, alpha, &A.m, &X.m, flags, &cf) : armas_mvmult_sym(beta, &Y.m, alpha, &A.m, &X.m, flags, &cf))) return;
        for (int i = 0; i < ny; i++) { EXPECT("mv-value", V(&Y, i) == e[i], "y[%d] = %.17g, expected %.17g", i, V(&Y, i), e[i]); h = h * 31 + (int64_t)(4 * e[i]); }
        gm_same(&A, "A"); gm_same(&X, "x"); gm_guard(&Y, "y");
        break; }
    case GER: case SYR: case SYR2: case UPD: {
        int rc = op == GER ? armas_mvupdate(beta, &A.m, alpha, &X.m, &Y.m, &cf) : op == SYR ? armas_mvupdate_sym(beta, &A.m, alpha, &X.m, flags, &cf)
            : op == SYR2 ? armas_mvupdate2_sym(beta, &A.m, alpha, &X.m, &Y.m, flags, &cf) : armas_mvupdate_trm(beta, &A.m, alpha, &X.m, &Y.m, flags, &cf);
        if (!rcok(rc)) return;
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
            if (op != GER && (up ? i > j : i < j)) { EXPECT("wrong-triangle", mc_biteq(G(&A, i, j), S(&A, i, j)), "A[%d,%d] changed to %g", i, j, G(&A, i, j)); continue; }
            double x = op == SYR ? V(&X, i) * V(&X, j) : op == SYR2 ? V(&X, i) * V(&Y, j) + V(&Y, i) * V(&X, j) : V(&X, i) * V(&Y, j);
            double w = beta * S(&A, i, j) + alpha * x;
            EXPECT("update-value", G(&A, i, j) == w, "A[%d,%d] = %.17g, expected %.17g", i, j, G(&A, i, j), w); h = h * 31 + (int64_t)(4 * w);
        }
        gm_same(&X, "x"); gm_same(&Y, "y"); gm_guard(&A, "A");
        break; }
    case TRMV: case TRSV:
        for (int i = 0; i < n; i++) {
            e[i] = 0;
            for (int k = 0; k < n; k++) {
                int r = tr ? k : i, c = tr ? i : k;
                double a = r == c && (flags & ARMAS_UNIT) ? 1 : (up ? r > c : r < c) ? 0 : S(&A, r, c);
                e[i] += a * V(&X, k);
            }
        }
        if (op == TRSV) for (int i = 0; i < n; i++) { double t = V(&X, i); V(&X, i) = e[i]; e[i] = t; }
        if (!rcok(op == TRMV ? armas_mvmult_trm(&X.m, alpha, &A.m, flags, &cf) : armas_mvsolve_trm(&X.m, alpha, &A.m, flags, &cf))) return;
        for (int i = 0; i < n; i++) { EXPECT(op == TRMV ? "trmv-value" : "trsv-value", V(&X, i) == alpha * e[i], "x[%d] = %.17g, expected %.17g", i, V(&X, i), alpha * e[i]); h = h * 31 + (int64_t)(4 * e[i]); }
        gm_same(&A, "A"); gm_guard(&X, "x");
        break;
    }
    mc_outcome(h);
}
static const int LEN[] = {17, 23, 31, 32, 33, 63, 64, 65, 100, 257, 1023, 1024, 1025, 2050};
static const int DIM[] = {15, 16, 17, 31, 33, 63, 65};
static int pickfl(int op)
{
    int f = 0;
    if (op == GEMV) return MC_PICK("flags", 0, ARMAS_TRANSA, ARMAS_ABS, ARMAS_ABS | ARMAS_TRANSA);
    if (op == GER) return 0;
    f = MC_PICK("tri", ARMAS_UPPER, ARMAS_LOWER);
    if (op == TRMV || op == TRSV) f |= MC_PICK("trans", 0, ARMAS_TRANSA) | MC_PICK("unit", 0, ARMAS_UNIT);
    return f;
}
void mc_body(void)
{
    switch (mc_choose("suite", 5)) {
    case 0: {
        int op = mc_choose("op", NL1), n = mc_range("n", 0, mc_sel(13, 24, 40));
        int kx = mc_choose("kx", NVK), ky = op == ASUM || op == NRM2 || op == AMAX || op >= SCALE ? 0 : mc_choose("ky", NVK);
        level1(op, n, kx, ky, mc_pickd("alpha", AL, 4), op == AXPBY ? mc_pickd("beta", AL, 4) : 1, op <= ADOT ? MC_PICK("opt", 0, ARMAS_ONAIVE) : 0, op <= ADOT || op == ASUM ? mc_choose("cfg", ITEM(CF)) : 0);
        break; }
    case 1: {
        int op = mc_choose("op", NL1), n = mc_pickv("n", LEN, ITEM(LEN));
        level1(op, n, mc_choose("kx", NVK), op == ASUM || op == NRM2 || op == AMAX || op >= SCALE ? 0 : MC_PICK("ky", 0, 2), -2, 0.5, 0, op <= ADOT || op == ASUM ? MC_PICK("cfg", 0, 1, 2, 4) : 0);
        break; }
    case 2: {
        int n = mc_range("n", 1, mc_thorough ? 7 : 5), kx = mc_choose("kx", NVK), v[8];
        for (int i = 0; i < n; i++) v[i] = mc_choose("v", 5) - 2;
        amaxall(n, kx, v);
        break; }
    case 3: {
        int op = mc_choose("op", NL2), N = mc_sel(12, 18, 24);
        int m = mc_range("m", 1, N), n = op == GEMV || op == GER || op == UPD ? mc_range("n", 1, N) : m;
        int fl = pickfl(op), kx = mc_choose("kx", NVK), ky = op == GEMV || op == GER || op == SYMV || op == SYR2 || op == UPD ? MC_PICK("ky", 0, 2) : 0;
        level2(op, m, n, fl, kx, ky, mc_choose("layout", 2), MC_PICKD("alpha", 1, -2, 0), op == TRMV || op == TRSV ? 1 : MC_PICKD("beta", 1, 0.5, 0), MC_PICK("opt", 0, ARMAS_ONAIVE, ARMAS_ORECURSIVE), MC_PICK("cfg", 0, 2, 3));
        break; }
    case 4: {
        int op = mc_choose("op", NL2), m = mc_pickv("m", DIM, ITEM(DIM)), n = op == GEMV || op == GER || op == UPD ? mc_pickv("n", DIM, ITEM(DIM)) : m;
        level2(op, m, n, pickfl(op), MC_PICK("kx", 0, 2), MC_PICK("ky", 1, 3), LP, -2, op == TRMV || op == TRSV ? 1 : MC_PICKD("beta", 0.5, 0), MC_PICK("opt", 0, ARMAS_ONAIVE, ARMAS_ORECURSIVE), mc_choose("cfg", ITEM(CF)));
        break; }
    }
}
