/* C16: singular value decomposition: general, bidiagonal, dqds */
#include "mc.h"
#include "cfg.h"
#include "num.h"
#include "work.h"
#include "vecs.h"
const char *mc_name = "svd";
void mc_setup(void) {}
static armas_conf_t cf;
#define EXPECT(key, cond, ...) do { mc_cmp(1); if (!(cond)) { mc_fail(key, __VA_ARGS__); return; } } while (0)
static const double eps = DBL_EPSILON;
static void setlb(int lb) { cfg_t c = CFG_DEFAULT; c.lb = lb; cfg_set(&c); cf = *armas_conf_default(); cf.error = 0; }
static int cmpd(const void *a, const void *b) { double x = *(double *)a, y = *(double *)b; return x > y ? -1 : x < y; }
/* reference singular values: one-sided Jacobi in long double, after scaling */
static void jacobi(dm A, double *s)
{
    if (A.r < A.c) A = dm_t(A);
    int m = A.r, n = A.c; double sc = dm_max(A); if (sc == 0) { for (int i = 0; i < n; i++) s[i] = 0; return; }
    long double *w = mc_mem(sizeof(long double) * (m * n + 1));
    for (int i = 0; i < m * n; i++) w[i] = A.e[i] / sc;
    for (int sweep = 0; sweep < 60; sweep++) {
        int rot = 0;
        for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
            long double a = 0, b = 0, c = 0;
            for (int i = 0; i < m; i++) { long double x = w[p * m + i], y = w[q * m + i]; a += x * x; b += y * y; c += x * y; }
            if (c == 0 || fabsl(c) <= 1e-19L * sqrtl(a * b)) continue;
            rot = 1; long double z = (b - a) / (2 * c), t = (z >= 0 ? 1 : -1) / (fabsl(z) + sqrtl(1 + z * z)), cs = 1 / sqrtl(1 + t * t), sn = cs * t;
            for (int i = 0; i < m; i++) { long double x = w[p * m + i], y = w[q * m + i]; w[p * m + i] = cs * x - sn * y; w[q * m + i] = sn * x + cs * y; }
        }
        if (!rot) break;
    }
    for (int j = 0; j < n; j++) { long double a = 0; for (int i = 0; i < m; i++) a += w[j * m + i] * w[j * m + i]; s[j] = (double)(sqrtl(a) * sc); }
    qsort(s, n, 8, cmpd);
}
static dm scaled(dm a, double s) { dm r = dm_copy(a); for (long i = 0; i < (long)r.r * r.c; i++) r.e[i] /= s; return r; }
/* values and vectors against the original matrix (everything divided by its largest element) */
static void verify(dm A0, double *s, int K, gm_t *U, gm_t *W, double tol)
{
    double sc = dm_max(A0), *ref = mc_mem(sizeof(double) * (K + 1)), e; if (sc == 0) sc = 1;
    for (int i = 0; i < K; i++) EXPECT("value", isfinite(s[i]) && s[i] >= 0, "singular value %d is %g", i, s[i]);
    for (int i = 1; i < K; i++) EXPECT("order", s[i - 1] >= s[i], "singular values %d (%g) and %d (%g) not in decreasing order", i - 1, s[i - 1], i, s[i]);
    jacobi(A0, ref);
    for (int i = 0; i < K; i++) EXPECT("values", fabs(s[i] - ref[i]) <= tol * sc, "singular value %d is %.17g, expected %.17g", i, s[i], ref[i]);
    dm A = scaled(A0, sc), Ud, Vd;
    if (U) { Ud = dm_get(U); e = dm_orth(Ud); EXPECT("U-orthogonal", e <= tol, "|U'U-I| = %g", e); }
    if (W) { Vd = dm_get(W); e = dm_orth(dm_t(Vd)); EXPECT("V-orthogonal", e <= tol, "|VV'-I| = %g", e); }
    if (U && W) {
        dm R = dm_sel(Ud, 0, 0, Ud.r, K), T = dm_sel(Vd, 0, 0, K, Vd.c);
        for (int j = 0; j < K; j++) for (int i = 0; i < R.r; i++) AT(R, i, j) *= s[j] / sc;
        e = dm_dist(dm_mul(R, T), A); EXPECT("product", e < 1e300 && e <= tol, "|A - USV'| = %g |A|", e);
    } else if (U) {
        dm X = dm_mul(dm_t(A), Ud); dm g = dm_mul(dm_t(X), X);
        for (int j = 0; j < g.c; j++) AT(g, j, j) -= j < K ? s[j] / sc * (s[j] / sc) : 0;
        e = dm_max(g); EXPECT("U-vectors", e <= 4 * tol, "U'AA'U differs from S^2 by %g", e);
    } else if (W) {
        dm X = dm_mul(A, dm_t(Vd)); dm g = dm_mul(dm_t(X), X);
        for (int j = 0; j < g.c; j++) AT(g, j, j) -= j < K ? s[j] / sc * (s[j] / sc) : 0;
        e = dm_max(g); EXPECT("V-vectors", e <= 4 * tol, "VA'AV' differs from S^2 by %g", e);
    }
    mc_outcome(mc_hash(s, sizeof(double) * K, (U != 0) + 2 * (W != 0)));
}
static void general(gm_t *A, int want, int lb, int ws, int golub, int vk, int lay)
{
    int m = A->m.rows, n = A->m.cols, K = m < n ? m : n, wu = want & 3, wv = want >> 2, rc, fl = (wu ? ARMAS_WANTU : 0) | (wv ? ARMAS_WANTV : 0);
    gm_t S, U, W; gv_new(&S, K, vk); gm_snap(&S);
    gm_new(&U, m, wu == 2 ? m : K, lay); gm_new(&W, wv == 2 ? n : K, n, lay); gm_snap(&U); gm_snap(&W); gm_snap(A);
    dm A0 = dm_get(A); setlb(lb); if (golub) cf.optflags |= ARMAS_OBSVD_GOLUB;
    if (ws == 0) rc = armas_svd(&S.m, wu ? &U.m : 0, wv ? &W.m : 0, &A->m, fl, &cf);
    else {
        armas_wbuf_t q = ARMAS_WBNULL; rc = armas_svd_w(&S.m, wu ? &U.m : 0, wv ? &W.m : 0, &A->m, fl, &q, &cf);
        EXPECT("query", rc == 0 && !gm_diff_any(&S) == 0, "workspace query returned %d", rc);
        rc = armas_svd_w(&S.m, wu ? &U.m : 0, wv ? &W.m : 0, &A->m, fl, work(q.bytes ? q.bytes : 8), &cf); workdone();
    }
    mc_ops(1); gm_guard(A, "A"); gm_guard(&S, "S"); gm_guard(&U, "U"); gm_guard(&W, "V"); if (!wu) gm_same(&U, "U"); if (!wv) gm_same(&W, "V");
    EXPECT("svd-rc", rc == 0, "returned %d error %d", rc, cf.error);
    double *s = mc_mem(sizeof(double) * (K + 1)); for (int i = 0; i < K; i++) s[i] = V(&S, i);
    verify(A0, s, K, wu ? &U : 0, wv ? &W : 0, 60 * eps * (m + n));
}
static void bidiag(int n, const double *d, const double *e, int lower, int want, int algo, int init, int vk, int ws)
{
    gm_t D, E, U, W; int rc, fl = (lower ? ARMAS_LOWER : ARMAS_UPPER) | (want & 1 ? ARMAS_WANTU : 0) | (want & 2 ? ARMAS_WANTV : 0) | (algo == 2 ? ARMAS_FORWARD : 0), p = init ? n + 1 : n, x = init == 2; /* x: more columns of U and rows of V than values, not touched */
    setlb(4); if (algo == 1) cf.optflags |= ARMAS_OBSVD_GOLUB; if (algo == 3) cf.optflags |= ARMAS_OABSTOL;
    gv_new(&D, n, vk); gv_new(&E, n - 1, vk); for (int i = 0; i < n; i++) { V(&D, i) = d[i]; if (i < n - 1) V(&E, i) = e[i]; } gm_snap(&D); gm_snap(&E);
    gm_new(&U, p, n + x, vk == 1 ? LP : LT); gm_new(&W, n + x, p, vk == 1 ? LP : LT);
    /* initial factors: identity or a reflection with more rows than columns */
    for (int j = 0; j < n; j++) for (int i = 0; i < p; i++) { G(&U, i, j) = (i == j) - (init ? 2.0 / p : 0); G(&W, j, i) = (i == j) - (init ? 2.0 / p : 0); }
    if (x) for (int i = 0; i < p; i++) G(&U, i, n) = G(&W, n, i) = 5 + i;
    gm_snap(&U); gm_snap(&W); dm B = dm_new(n, n), U0, V0; U.m.cols = W.m.rows = n; U0 = dm_get(&U); V0 = dm_get(&W); U.m.cols = W.m.rows = n + x;
    for (int i = 0; i < n; i++) { AT(B, i, i) = d[i]; if (i < n - 1) { if (lower) AT(B, i + 1, i) = e[i]; else AT(B, i, i + 1) = e[i]; } }
    if (ws == 0) rc = armas_bdsvd(&D.m, &E.m, want & 1 ? &U.m : 0, want & 2 ? &W.m : 0, fl, &cf);
    else {
        armas_wbuf_t q = ARMAS_WBNULL; rc = armas_bdsvd_w(&D.m, &E.m, want & 1 ? &U.m : 0, want & 2 ? &W.m : 0, fl, &q, &cf); EXPECT("query", rc == 0, "workspace query returned %d", rc);
        rc = armas_bdsvd_w(&D.m, &E.m, want & 1 ? &U.m : 0, want & 2 ? &W.m : 0, fl, q.bytes ? work(q.bytes) : 0, &cf); if (q.bytes) workdone();
    }
    mc_ops(1); gm_guard(&D, "D"); gm_guard(&E, "E"); gm_guard(&U, "U"); gm_guard(&W, "V"); if (!(want & 1)) gm_same(&U, "U"); if (!(want & 2)) gm_same(&W, "V");
    if (x) for (int i = 0; i < p; i++) { EXPECT("extra-column", G(&U, i, n) == 5 + i, "U(%d,%d) is %g", i, n, G(&U, i, n)); EXPECT("extra-row", G(&W, n, i) == 5 + i, "V(%d,%d) is %g", n, i, G(&W, n, i)); }
    U.m.cols = W.m.rows = n;
    /* sweeps forced into the unfavourable direction of a matrix graded over 160 decades may run out of iterations; that is reported */
    if (algo == 2 && rc != 0 && cf.error == ARMAS_ECONVERGE) { int gr = 0; for (int i = 0; i < n; i++) gr |= fabs(d[i]) == 1e-160 || (i < n - 1 && fabs(e[i]) == 1e-160); if (gr) { mc_outcome(77); return; } }
    EXPECT("bdsvd-rc", rc == 0, "returned %d error %d", rc, cf.error);
    double *s = mc_mem(sizeof(double) * (n + 1)); for (int i = 0; i < n; i++) s[i] = V(&D, i);
    if (init && want) { dm M = dm_mul(dm_mul(U0, B), V0); if (want == 3) verify(M, s, n, &U, &W, 100 * eps * n); else verify(want == 1 ? dm_mul(U0, B) : dm_mul(B, V0), s, n, want == 1 ? &U : 0, want == 2 ? &W : 0, 100 * eps * n); }
    else verify(B, s, n, want & 1 ? &U : 0, want & 2 ? &W : 0, 100 * eps * n);
}
static void dqds(int n, const double *d, const double *e, int vk, int ws)
{
    gm_t D, E; int rc; setlb(4); gv_new(&D, n, vk); gv_new(&E, n - 1, vk); for (int i = 0; i < n; i++) { V(&D, i) = d[i]; if (i < n - 1) V(&E, i) = e[i]; } gm_snap(&D); gm_snap(&E);
    dm B = dm_new(n, n); for (int i = 0; i < n; i++) { AT(B, i, i) = d[i]; if (i < n - 1) AT(B, i, i + 1) = e[i]; }
    mc_case_timeout(10);
    if (ws == 0) rc = armas_dqds(&D.m, &E.m, &cf);
    else { armas_wbuf_t q = ARMAS_WBNULL; rc = armas_dqds_w(&D.m, &E.m, &q, &cf); EXPECT("query", rc == 0, "workspace query returned %d", rc); rc = armas_dqds_w(&D.m, &E.m, work(q.bytes), &cf); workdone(); }
    mc_ops(1); gm_guard(&D, "D"); gm_guard(&E, "E"); EXPECT("dqds-rc", rc == 0, "returned %d error %d", rc, cf.error);
    double *s = mc_mem(sizeof(double) * (n + 1)); for (int i = 0; i < n; i++) s[i] = V(&D, i);
    verify(B, s, n, 0, 0, 100 * eps * n);
}
void mc_body(void)
{
    int f = mc_choose("family", 6), m, n; double d[24], e[24]; gm_t A;
    static const double DA[] = {0, 1, -2, 1e-160, 3, 1e150, -1e-9};
    if (f == 0) {           /* general, small alphabet */
        static const int SH[][2] = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {3, 1}, {1, 3}, {3, 2}, {2, 3}, {3, 3}, {4, 2}, {2, 4}};
        int sh = mc_choose("shape", ITEM(SH)), want = MC_PICK("want", 0, 5, 10, 1, 4, 9), gol = mc_choose("golub", 2), c[9]; m = SH[sh][0]; n = SH[sh][1];
        for (int i = 0; i < m * n; i++) c[i] = mc_range("a", m * n > 6 ? -1 : -2, m * n > 6 ? (m * n == 9 && !mc_thorough ? 0 : 1) : 1);
        if (!mc_begin()) return;
        mc_note("svd %dx%d want=%d golub=%d small alphabet", m, n, want, gol);
        gm_new(&A, m, n, LP); for (int i = 0; i < m * n; i++) G(&A, i % m, i / m) = c[i];
        general(&A, want, 2, 0, gol, VC, LT);
    } else if (f == 1) {    /* general, patterns */
        int N = mc_sel(7, 9, 12), want = MC_PICK("want", 0, 1, 2, 4, 8, 5, 6, 9, 10), pat = mc_choose("pat", NPAT), lb = MC_PICK("lb", 0, 3), ws = mc_choose("ws", 2), gol = mc_choose("golub", 2), lay; m = mc_range("m", 1, N); n = mc_range("n", 1, N); lay = mc_choose("lay", 2);
        if (!mc_begin()) return;
        mc_note("svd %dx%d want=%d pattern=%s lb=%d ws=%d golub=%d layout=%d", m, n, want, pat_name[pat], lb, ws, gol, lay);
        gm_new(&A, m, n, lay ? LP : LT); pat_fill(&A, pat, m * 17 + n); general(&A, want, lb, ws, gol, lay ? VR : VC, lay ? LP : LT);
    } else if (f == 2) {    /* larger */
        int want = MC_PICK("want", 0, 5, 10), pat = MC_PICK("pat", P_RAND, P_RANK1, P_DUP), gol = mc_choose("golub", 2), ws = mc_choose("ws", 2); m = MC_PICK("m", 12, 25, 40); n = MC_PICK("n", 12, 24, 41);
        if (!mc_begin()) return;
        mc_note("svd %dx%d want=%d pattern=%s golub=%d", m, n, want, pat_name[pat], gol); gm_new(&A, m, n, LP); pat_fill(&A, pat, m + n); general(&A, want, 8, ws, gol, VC, LT);
    } else if (f == 3) {    /* bidiagonal alphabet */
        n = mc_range("n", 1, 4); int lower = mc_choose("lower", 2), want = n == 4 ? MC_PICK("want", 0, 3) : mc_choose("want", 4), algo = mc_choose("algo", 4), init = n == 4 ? 1 : mc_choose("init", 3), vk = n == 4 ? VC : mc_choose("layout", 3), ws = n < 4 ? mc_choose("ws", 2) : 0, na = n > 3 ? (mc_sel(3, 4, 5)) : n > 2 ? 4 : 7;
        for (int i = 0; i < n; i++) { d[i] = DA[mc_choose("d", na)]; if (i < n - 1) e[i] = DA[mc_choose("e", na)]; }
        if (!mc_begin()) return;
        mc_note("bdsvd n=%d lower=%d want=%d algo=%d init=%d D=%g %g %g %g E=%g %g %g", n, lower, want, algo, init, d[0], n > 1 ? d[1] : 0, n > 2 ? d[2] : 0, n > 3 ? d[3] : 0, n > 1 ? e[0] : 0, n > 2 ? e[1] : 0, n > 3 ? e[2] : 0);
        bidiag(n, d, e, lower, want, algo, init, vk, ws);
    } else if (f == 4) {    /* longer bidiagonals, graded and clustered; also the forced forward direction */
        n = MC_PICK("n", 5, 8, 20); int lower = mc_choose("lower", 2), want = MC_PICK("want", 0, 3), algo = mc_choose("algo", 4), kind = mc_choose("kind", 9), sg = mc_choose("scale", 3);
        if (!mc_begin()) return;
        mc_note("bdsvd n=%d lower=%d want=%d algo=%d kind=%d scale=%d", n, lower, want, algo, kind, sg); uint64_t r = 77 + n; mc_case_timeout(10);
        for (int i = 0; i < n; i++) {
            d[i] = e[i] = 1;
            switch (kind) {
            case 1: d[i] = 1 + mc_rnd(&r) % 9; e[i] = mc_rnd(&r) % 9 - 4; break;
            case 2: d[i] = pow(0.1, i); e[i] = pow(0.1, i); break;
            case 3: d[i] = pow(0.1, n - i); e[i] = pow(0.1, n - i); break;
            case 4: d[i] = i == n / 2 ? 0 : 2; break;
            case 5: d[i] = 3; e[i] = 1e-8; break;
            case 6: d[i] = i == n - 1 ? 0 : 1; break;
            case 7: d[i] = i == 0 ? 0 : -1.5; e[i] = i & 1 ? 0 : 2; break;
            case 8: d[i] = 1e-12; e[i] = 1; break;
            }
            double u = sg == 1 ? 1e-150 : sg == 2 ? 1e140 : 1; d[i] *= u; e[i] *= u;
        }
        bidiag(n, d, e, lower, want, algo, 1, VC, 0);
    } else {                /* dqds */
        int kind = mc_choose("kind", 7), vk = mc_choose("layout", 3), ws = mc_choose("ws", 2); n = kind == 0 ? mc_range("n", 1, 4) : MC_PICK("n", 3, 5, 8, 13, 20);
        static const double QA[] = {1, 0, 2, 1e-8, 1e-100, 5};
        if (kind == 0) for (int i = 0; i < n; i++) { d[i] = QA[mc_choose("d", n > 3 ? 3 : n > 2 ? 4 : 6)]; if (i < n - 1) e[i] = QA[mc_choose("e", n > 3 ? 3 : n > 2 ? 4 : 6)]; }
        if (!mc_begin()) return;
        mc_note("dqds n=%d kind=%d layout=%d ws=%d: %g %g %g %g / %g %g %g", n, kind, vk, ws, kind ? 0 : d[0], kind || n < 2 ? 0 : d[1], kind || n < 3 ? 0 : d[2], kind || n < 4 ? 0 : d[3], kind || n < 2 ? 0 : e[0], kind || n < 3 ? 0 : e[1], kind || n < 4 ? 0 : e[2]); uint64_t r = 7 + n;
        if (kind) for (int i = 0; i < n; i++) {
            d[i] = e[i] = 1;
            switch (kind) {
            case 1: d[i] = 1 + mc_rnd(&r) % 9; e[i] = 1 + mc_rnd(&r) % 9; break;
            case 2: d[i] = pow(0.1, i); e[i] = pow(0.1, i); break;
            case 3: d[i] = pow(0.1, n - i); e[i] = pow(0.1, n - i); break;
            case 4: d[i] = 3; e[i] = 1e-8; break;
            case 5: d[i] = 2; e[i] = i == n / 2 ? 0 : 1; break;
            case 6: d[i] = i == n / 2 ? 0 : 2; break;
            }
        }
        dqds(n, d, e, vk, ws);
    }
}
