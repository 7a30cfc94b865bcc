/* C14: LDL' (pivoted and not) and Bunch-Kaufman: factor, solve, invert */
#include "mc.h"
#include "cfg.h"
#include "num.h"
#include "work.h"
const char *mc_name = "ldlbk";
void mc_setup(void) {}
static armas_conf_t cf;
#define EXPECT(key, cond, ...) do { mc_cmp(1); if (!(cond)) { mc_fail(key, __VA_ARGS__); return; } } while (0)
static const double tole = 200 * DBL_EPSILON;
static void setlb(int lb) { cfg_t c = CFG_DEFAULT; c.lb = lb; cfg_set(&c); cf = *armas_conf_default(); cf.error = 0; }
static armas_pivot_t *pnew(int n) { armas_pivot_t *P = mc_mem(sizeof *P); armas_pivot_make(P, n, mc_mem(sizeof(int) * (n + 1))); for (int i = 0; i <= n; i++) P->indexes[i] = -99; return P; }
static void hide(gm_t *A, int fl) { for (int j = 0; j < A->m.cols; j++) for (int i = 0; i < A->m.rows; i++) if (fl & ARMAS_UPPER ? i > j : i < j) G(A, i, j) = NAN; }
static int hidden_ok(gm_t *A, int fl)
{
    for (int j = 0; j < A->m.cols; j++) for (int i = 0; i < A->m.rows; i++) if ((fl & ARMAS_UPPER ? i > j : i < j) && !mc_biteq(G(A, i, j), S(A, i, j))) { mc_fail("opposite-triangle", "element %d,%d written: %g", i, j, G(A, i, j)); return 0; }
    return 1;
}
static dm symget(gm_t *A, int fl) { int n = A->m.rows; dm s = dm_new(n, n); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) AT(s, i, j) = (fl & ARMAS_UPPER ? i <= j : i >= j) ? G(A, i, j) : G(A, j, i); return s; }
static void swr(dm b, int k, int q) { for (int j = 0; j < b.c; j++) { double t = AT(b, k, j); AT(b, k, j) = AT(b, q, j); AT(b, q, j) = t; } }
static void swc(dm b, int k, int q) { for (int j = 0; j < b.r; j++) { double t = AT(b, j, k); AT(b, j, k) = AT(b, j, q); AT(b, j, q) = t; } }
static void fill_rhs(gm_t *B) { for (int j = 0; j < B->m.cols; j++) for (int i = 0; i < B->m.rows; i++) G(B, i, j) = ((i * 7 + j * 5 + 3) % 11) - 5; }
static double cond_guess;   /* max |inv(A)|, by elimination; INFINITY if singular */
static dm inv_ref(dm A)
{
    int n = A.r; dm W = dm_copy(A), X = dm_eye(n); double sc = dm_max(A); cond_guess = INFINITY;
    for (int k = 0; k < n; k++) {
        int p = k; for (int i = k + 1; i < n; i++) if (fabs(AT(W, i, k)) > fabs(AT(W, p, k))) p = i;
        if (!(fabs(AT(W, p, k)) > 1e-12 * sc)) return X;
        swr(W, k, p); swr(X, k, p);
        double d = AT(W, k, k); for (int j = 0; j < n; j++) { AT(W, k, j) /= d; AT(X, k, j) /= d; }
        for (int i = 0; i < n; i++) if (i != k) { double m = AT(W, i, k); for (int j = 0; j < n; j++) { AT(W, i, j) -= m * AT(W, k, j); AT(X, i, j) -= m * AT(X, k, j); } }
    }
    cond_guess = dm_max(X); return X;
}
/* smallest pivot ratio which diagonal elimination meets (from the bottom for the upper form); with ties
 * for the largest diagonal element any of them may be chosen, so the worst of the choices counts */
static double diag_rec(dm A, int k, int piv, double sc)
{
    int n = A.r; double worst = INFINITY, mx = 0;
    if (k == n) return worst;
    for (int i = k; i < n; i++) if (fabs(AT(A, i, i)) > mx) mx = fabs(AT(A, i, i));
    for (int p = k; p < (piv ? n : k + 1); p++) {
        if (piv && fabs(AT(A, p, p)) < mx * (1 - 1e-9)) continue;
        dm B = dm_copy(A); swr(B, k, p); swc(B, k, p);
        double d = fabs(AT(B, k, k)) / sc; if (!(d > 1e-9)) return 0;
        for (int i = k + 1; i < n; i++) { double m = AT(B, i, k) / AT(B, k, k); for (int j = k + 1; j < n; j++) AT(B, i, j) -= m * AT(B, k, j); }
        double r = diag_rec(B, k + 1, piv, sc); if (r < d) d = r;
        if (d < worst) worst = d;
        if (n > 4) break;
    }
    return worst;
}
static double diag_ok(dm A0, int up, int piv)
{
    dm A = dm_copy(A0); int n = A.r;
    if (up) { dm B = dm_new(n, n); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) AT(B, i, j) = AT(A, n - 1 - i, n - 1 - j); A = B; }
    return diag_rec(A, 0, piv, dm_max(A));
}
static void solve_check(gm_t *A, armas_pivot_t *P, int fl, dm A0, int p, int lay, int bk, double growth)
{
    int n = A0.r, rc; double scale = dm_max(A0), err;
    inv_ref(A0); if (!(cond_guess * scale < 1e7)) return;
    for (int tr = 0; tr < (bk ? 1 : 2); tr++) {
        gm_t B; gm_new(&B, n, p, lay); fill_rhs(&B); gm_snap(&B); gm_snap(A); dm B0 = dm_get(&B);
        rc = bk ? armas_bksolve(&B.m, &A->m, P, fl, &cf) : armas_ldlsolve(&B.m, &A->m, P, tr ? fl | ARMAS_TRANS : fl, &cf); mc_ops(1);
        gm_guard(&B, "B"); gm_same(A, "A");
        EXPECT("solve-rc", rc == 0, "returned %d", rc);
        if (tr) continue;                          /* a symmetric matrix has no transposed system: only rc is defined */
        dm X = dm_get(&B); err = dm_dist(dm_mul(A0, X), B0);
        EXPECT("solve", err < 1e300 && err <= 1e-9 * growth * (1 + dm_max(X) * scale), "|AX-B| = %g, |X| = %g", err, dm_max(X));
    }
}
static void ldl_check(gm_t *A, int fl, int lb, int piv, int own, int p, int lay)
{
    int n = A->m.rows, up = !!(fl & ARMAS_UPPER), rc; dm A0 = symget(A, fl); double scale = dm_max(A0), err;
    double ok = diag_ok(A0, up, piv);
    hide(A, fl); gm_snap(A); setlb(lb); armas_pivot_t *P = piv ? pnew(n) : ARMAS_NOPIVOT;
    if (own == 0) rc = armas_ldlfactor(&A->m, P, fl, &cf);
    else if (own == 1) { armas_wbuf_t q = ARMAS_WBNULL; armas_ldlfactor_w(&A->m, P, fl, &q, &cf); if (q.bytes) { rc = armas_ldlfactor_w(&A->m, P, fl, work(q.bytes), &cf); workdone(); } else rc = armas_ldlfactor_w(&A->m, P, fl, ARMAS_NOWORK, &cf); }
    else { rc = armas_ldlfactor_w(&A->m, P, fl, work(own == 2 ? 8 : 33 * n * 8), &cf); workdone(); }
    mc_ops(1); gm_guard(A, "A"); if (!hidden_ok(A, fl)) return;
    if (P) EXPECT("pivot-overrun", P->indexes[n] == -99, "wrote behind the pivot vector");
    if (ok == 0) return;                           /* elimination on the diagonal breaks down: nothing is promised */
    EXPECT("ldl-rc", rc == 0, "returned %d error %d", rc, cf.error);
    dm L = dm_eye(n), D = dm_new(n, n);
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) { if (i == j) AT(D, i, i) = G(A, i, i); else if (up ? i < j : i > j) AT(L, i, j) = G(A, i, j); }
    dm E = dm_copy(A0);
    if (P) { for (int k = 0; k < n; k++) EXPECT("pivot-range", P->indexes[k] >= 1 && P->indexes[k] <= n, "P[%d] = %d", k, P->indexes[k]);
        if (up) for (int k = n - 1; k >= 0; k--) { swr(E, k, P->indexes[k] - 1); swc(E, k, P->indexes[k] - 1); }
        else for (int k = 0; k < n; k++) { swr(E, k, P->indexes[k] - 1); swc(E, k, P->indexes[k] - 1); } }
    double growth = 1 + 1 / ok;
    err = dm_dist(dm_mul(dm_mul(L, D), dm_t(L)), E);
    EXPECT("ldl-product", err <= tole * n * scale * growth, "|A - LDL'| = %g", err);
    mc_outcome(mc_hash(L.e, sizeof(double) * n * n, piv));
    solve_check(A, P, fl, A0, p, lay, 0, growth);
    if (mc_failed() || !(cond_guess * scale < 1e7)) return;
    for (int ws = 0; ws < (n > 36 ? 4 : 3); ws++) {
        gm_t I; gm_new(&I, n, n, lay); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) G(&I, i, j) = G(A, i, j); gm_snap(&I);
        if (ws == 0) rc = armas_ldlinverse(&I.m, P, fl, &cf);
        else { armas_wbuf_t q = ARMAS_WBNULL; armas_ldlinverse_w(&I.m, P, fl, &q, &cf); rc = armas_ldlinverse_w(&I.m, P, fl, work(ws == 1 ? q.bytes : (ws == 3 ? 34 : 1) * n * sizeof(double)), &cf); workdone(); }
        mc_ops(1); gm_guard(&I, "inverse"); if (!hidden_ok(&I, fl)) return;
        EXPECT("ldlinverse-rc", rc == 0, "ws=%d returned %d error %d", ws, rc, cf.error);
        dm V = symget(&I, fl); err = dm_dist(dm_mul(A0, V), dm_eye(n));
        EXPECT("ldlinverse", err <= 1e-9 * growth * (1 + cond_guess * scale), "ws=%d |A*inv-I| = %g", ws, err);
    }
}
static void bk_check(gm_t *A, int fl, int lb, int own, int p, int lay)
{
    int n = A->m.rows, up = !!(fl & ARMAS_UPPER), rc; dm A0 = symget(A, fl); double scale = dm_max(A0), err;
    hide(A, fl); gm_snap(A); setlb(lb); armas_pivot_t *P = pnew(n);
    if (own == 0) rc = armas_bkfactor(&A->m, P, fl, &cf);
    else { armas_wbuf_t q = ARMAS_WBNULL; armas_bkfactor_w(&A->m, P, fl, &q, &cf); rc = armas_bkfactor_w(&A->m, P, fl, work(own == 1 ? q.bytes : (own == 3 && n > 36 ? 34 : 2) * n * sizeof(double)), &cf); workdone(); }
    mc_ops(1); gm_guard(A, "A"); if (!hidden_ok(A, fl)) return;
    EXPECT("pivot-overrun", P->indexes[n] == -99, "wrote behind the pivot vector");
    EXPECT("bk-rc", rc == 0, "returned %d error %d", rc, cf.error);
    /* A = (P1 L1 P2 L2 ...) D (...)': interleaved interchanges as in the documentation (lapack.SYTRF) */
    dm M = dm_eye(n), D = dm_new(n, n);
    for (int s = 0; s < n; ) {
        int k = up ? n - 1 - s : s, q = P->indexes[k], two = q < 0, kp = (two ? -q : q) - 1;
        EXPECT("bk-pivot", q != 0 && kp >= 0 && kp < n && (up ? kp <= k : kp >= k), "P[%d] = %d", k, q);
        if (two) EXPECT("bk-pivot-pair", s + 1 < n && P->indexes[up ? k - 1 : k + 1] == q, "P[%d] = %d has no partner", k, q);
        int k2 = up ? k - 1 : k + 1;
        swc(M, two ? k2 : k, kp);                       /* M := M * P(k) */
        dm L = dm_eye(n);
        for (int i = 0; i < n; i++) if (up ? i < (two ? k2 : k) : i > (two ? k2 : k)) { AT(L, i, k) = G(A, i, k); if (two) AT(L, i, k2) = G(A, i, k2); }
        M = dm_mul(M, L);
        AT(D, k, k) = G(A, k, k);
        if (two) { AT(D, k2, k2) = G(A, k2, k2); AT(D, k, k2) = AT(D, k2, k) = up ? G(A, k2, k) : G(A, k2, k); }
        s += two ? 2 : 1;
    }
    err = dm_dist(dm_mul(dm_mul(M, D), dm_t(M)), A0);
    EXPECT("bk-product", err <= tole * n * scale * 50, "|A - LDL'| = %g", err);
    mc_outcome(mc_hash(M.e, sizeof(double) * n * n, up));
    solve_check(A, P, fl, A0, p, lay, 1, 10);
}
static void gen(gm_t *A, int kind, int seed)   /* symmetric test matrices */
{
    int n = A->m.rows; gm_rand(A, seed);
    for (int j = 0; j < n; j++) for (int i = j; i < n; i++) {
        double v = G(A, i, j);
        switch (kind) {
        case 0: if (i == j) v += (i & 1 ? -1 : 1) * (1.5 * n); break;             /* indefinite, diagonally dominant */
        case 1: if (i == j) v = (i * 7 % n + 1) * 3.0 * (i % 3 ? 1 : -1) * n; break; /* pivots in mixed order */
        case 2: break;                                                              /* random */
        case 3: if (i == j) v = 0; break;                                           /* zero diagonal: 2x2 pivots */
        case 4: v = i == j ? 0 : i + j == n - 1 || i - j == 1 ? 1 + v : 0.01 * v; break;
        case 5: if ((i + j) & 1) v *= 20; break;
        case 6: v = i == j ? v * 1e-3 : i - j == 1 ? 2 : 0; break;                  /* tridiagonal */
        case 7: if (i == n - 1 || j == 0) v *= 100; break;                          /* arrow */
        case 8: v *= 1e-150; if (i == j) v += 1e-150 * n; break;
        case 9: v = i == j ? (i & 1 ? -1 : 1) : 0; break;                           /* diagonal, ties */
        }
        G(A, i, j) = G(A, j, i) = v;
    }
}
void mc_body(void)
{
    int what = mc_choose("what", 3) /* ldl, ldl pivoted, bk */, kind = mc_choose("kind", 3), fl = MC_PICK("fl", ARMAS_LOWER, ARMAS_UPPER);
    if (kind == 0) {
        /* every symmetric matrix of order <= 3 over {-2..2}; of order 4 over {-1,0,1} */
        int n = mc_range("n", 1, 4), lb = n == 4 && !mc_thorough ? 2 + (what == 1) : MC_PICK("lb", 0, 2, 3), c[10], k = 0;
        if (n == 4 && what == 0 && !mc_thorough) { if (mc_begin()) mc_note("thorough only"); return; }
        for (int j = 0; j < n; j++) for (int i = j; i < n; i++) c[k++] = n < 4 ? mc_range("a", -2, 2) : mc_range("a", -1, 1);
        if (!mc_begin()) return;
        mc_note("%s n=%d flags=0x%x lb=%d small alphabet", what == 2 ? "bk" : what ? "ldl pivoted" : "ldl", n, fl, lb);
        gm_t A; gm_new(&A, n, n, LP); k = 0; for (int j = 0; j < n; j++) for (int i = j; i < n; i++) G(&A, i, j) = G(&A, j, i) = c[k++];
        if (what == 2) bk_check(&A, fl, lb, 0, 2, LT); else ldl_check(&A, fl, lb, what, 0, 2, LT);
    } else if (kind == 2) {
        /* every symmetric matrix of order 3 (4) with elements of two magnitudes: the choice of pivots decides */
        static const double AL[] = {0, 9.313225746154785e-10 /* 2^-30 */, 1, -1}; double c[10]; int k = 0;
        if (what != 2) return;
        int n = mc_range("n", 3, 4), lb = MC_PICK("lb", 0, 2);
        for (int j = 0; j < n; j++) for (int i = j; i < n; i++) c[k++] = AL[mc_choose("a", n == 3 ? 4 : 3)];
        if (!mc_begin()) return;
        mc_note("bk n=%d flags=0x%x lb=%d elements of two magnitudes", n, fl, lb);
        gm_t A; gm_new(&A, n, n, LP); k = 0; for (int j = 0; j < n; j++) for (int i = j; i < n; i++) G(&A, i, j) = G(&A, j, i) = c[k++];
        bk_check(&A, fl, lb, 0, 2, LT);
    } else {
        int N = mc_sel(11, 15, 19), n = mc_range("n", 1, N + 1), lb = n > N ? MC_PICK("lb", 0, 4, 32, 36, 64) : MC_PICK("lb", 0, 2, 3, 4, 5, 64), own = mc_choose("ws", 4), lay = mc_choose("lay", 2), pat = mc_choose("pat", 10), p = MC_PICK("p", 1, 3), seed = n > N ? 0 : mc_range("seed", 0, mc_thorough ? 9 : 1);
        if (n > N) n = MC_PICK("big", 40, 70);
        if (!mc_begin()) return;
        mc_note("%s n=%d flags=0x%x lb=%d ws=%d layout=%d matrix kind %d p=%d seed=%d", what == 2 ? "bk" : what ? "ldl pivoted" : "ldl", n, fl, lb, own, lay, pat, p, seed);
        gm_t A; gm_new(&A, n, n, lay); gen(&A, pat, n * 17 + seed);
        if (what == 2) bk_check(&A, fl, lb, own, p, lay); else ldl_check(&A, fl, lb, what, own, p, lay);
    }
}
