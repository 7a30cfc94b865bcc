/* C12: QR, LQ, QL, RQ: factor, build, multiply, block reflector, solve */
#include "mc.h"
#include "cfg.h"
#include "num.h"
#include "work.h"
const char *mc_name = "qr";
void mc_setup(void) {}
static armas_conf_t cf;
#define EXPECT(key, cond, ...) do { mc_cmp(1); if (!(cond)) { mc_fail(key, __VA_ARGS__); return; } } while (0)
enum { QR, LQ, QL, RQ };
static const char *fam[] = {"qr", "lq", "ql", "rq"};
typedef int (*fac_t)(armas_dense_t *, armas_dense_t *, armas_wbuf_t *, armas_conf_t *);
typedef int (*bld_t)(armas_dense_t *, const armas_dense_t *, int, armas_wbuf_t *, armas_conf_t *);
typedef int (*mul_t)(armas_dense_t *, const armas_dense_t *, const armas_dense_t *, int, armas_wbuf_t *, armas_conf_t *);
typedef int (*ref_t)(armas_dense_t *, armas_dense_t *, armas_dense_t *, armas_conf_t *);
static fac_t FAC[] = {armas_qrfactor_w, armas_lqfactor_w, armas_qlfactor_w, armas_rqfactor_w};
static bld_t BLD[] = {armas_qrbuild_w, armas_lqbuild_w, armas_qlbuild_w, armas_rqbuild_w};
static mul_t MUL[] = {armas_qrmult_w, armas_lqmult_w, armas_qlmult_w, armas_rqmult_w};
static ref_t REF[] = {armas_qrreflector, armas_lqreflector, armas_qlreflector, armas_rqreflector};
static int (*FAC0[])(armas_dense_t *, armas_dense_t *, armas_conf_t *) = {armas_qrfactor, armas_lqfactor, armas_qlfactor, armas_rqfactor};
static int (*BLD0[])(armas_dense_t *, const armas_dense_t *, int, armas_conf_t *) = {armas_qrbuild, armas_lqbuild, armas_qlbuild, armas_rqbuild};
static int (*MUL0[])(armas_dense_t *, const armas_dense_t *, const armas_dense_t *, int, armas_conf_t *) = {armas_qrmult, armas_lqmult, armas_qlmult, armas_rqmult};
static int f, m, n, lay, lb, ws, pat, op;
static gm_t A, tau;
static dm A0, Qf /* full Q */, V; static double scale, tol;
static int factor(void)
{
    int rc;
    if (ws == 0) rc = FAC0[f](&A.m, &tau.m, &cf);
    else {
        armas_wbuf_t q = ARMAS_WBNULL; rc = FAC[f](&A.m, &tau.m, &q, &cf); if (rc) return rc;
        int k = f == QR || f == QL ? n : m;
        size_t need = ws == 1 ? q.bytes : ws == 2 ? k * sizeof(double) : (size_t)(q.bytes - 8 > k * sizeof(double) ? q.bytes - 8 : k * sizeof(double));
        rc = FAC[f](&A.m, &tau.m, work(need), &cf); workdone();
    }
    mc_ops(1); return rc;
}
/* Q as the product of the stored reflectors; V their vectors */
static dm qprod(dm a, const double *t, int k0, int k1)
{
    int K = a.r < a.c ? a.r : a.c, N = f == QR || f == QL ? a.r : a.c;
    dm Q = dm_eye(N); V = dm_new(N, K);
    for (int k = 0; k < K; k++) {
        double *v = &AT(V, 0, k);
        switch (f) {
        case QR: v[k] = 1; for (int i = k + 1; i < N; i++) v[i] = AT(a, i, k); break;
        case LQ: v[k] = 1; for (int i = k + 1; i < N; i++) v[i] = AT(a, k, i); break;
        case QL: { int p = N - a.c + k; v[p] = 1; for (int i = 0; i < p; i++) v[i] = AT(a, i, k); break; }
        case RQ: { int p = N - a.r + k; v[p] = 1; for (int i = 0; i < p; i++) v[i] = AT(a, k, i); break; }
        }
        if (k < k0 || k >= k1) continue;
        double *w = mc_mem(sizeof(double) * N); int right = f == QR || f == RQ;       /* Q := Q*H or H*Q */
        for (int i = 0; i < N; i++) { long double x = 0; for (int j = 0; j < N; j++) x += (long double)v[j] * (right ? AT(Q, i, j) : AT(Q, j, i)); w[i] = t[k] * x; }
        for (int j = 0; j < N; j++) for (int i = 0; i < N; i++) AT(Q, i, j) -= right ? w[i] * v[j] : v[i] * w[j];
    }
    return Q;
}
static void one(void)
{
    int r0 = 0, p = 1, K = 0, fl = 0, N = f == QR || f == QL ? m : n, k = f == QR || f == QL ? n : m;
    if (op == 1) K = mc_range("K", 0, k);
    if (op == 2) { p = MC_PICK("p", 1, 2, 5, 7); fl = MC_PICK("fl", ARMAS_LEFT, ARMAS_RIGHT, ARMAS_LEFT | ARMAS_TRANS, ARMAS_RIGHT | ARMAS_TRANS, 0); }
    if (op == 4) { p = MC_PICK("p", 1, 3, 6, 9); fl = MC_PICK("fl", 0, ARMAS_TRANS); }
    if (!mc_begin()) return;
    mc_note("%s op=%d %dx%d pattern=%s layout=%d lb=%d ws=%d K=%d p=%d flags=0x%x", fam[f], op, m, n, pat_name[pat], lay, lb, ws, K, p, fl);
    cfg_t c = CFG_DEFAULT; c.lb = lb; cfg_set(&c);
    cf = *armas_conf_default(); cf.error = 0;
    gm_new(&A, m, n, lay); pat_fill(&A, pat, m * 31 + n * 7 + 3); gm_snap(&A);
    gm_new(&tau, k, 1, LT); gm_snap(&tau);
    A0 = dm_get(&A); scale = dm_max(A0); tol = 60.0 * (m + n) * DBL_EPSILON;
    int rc = factor(); (void)r0;
    EXPECT("factor-rc", rc == 0, "returned %d error %d", rc, cf.error);
    gm_guard(&A, "A"); gm_guard(&tau, "tau");
    if (mc_failed()) return;
    dm AF = dm_get(&A), T = dm_get(&tau);
    EXPECT("tau-finite", dm_max(T) <= 2.0000001, "tau out of [0,2]");
    Qf = qprod(AF, T.e, 0, k);
    EXPECT("q-orthogonal", dm_orth(Qf) <= tol, "|Q'Q-I| = %g", dm_orth(Qf));
    /* triangular factor, embedded so that A = Q*R (QR,QL) or L*Q (LQ,RQ) with the full Q */
    dm R = dm_new(m, n);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
        int in = f == QR ? i <= j : f == LQ ? j <= i : f == QL ? i >= j + m - n : j >= i + n - m;
        if (in) AT(R, i, j) = AT(AF, i, j);
    }
    dm P = f == QR || f == QL ? dm_mul(Qf, R) : dm_mul(R, Qf);
    EXPECT("factor-product", dm_dist(P, A0) <= tol * scale, "|A - product| = %g, scale %g", dm_dist(P, A0), scale);
    mc_outcome(mc_hash(AF.e, sizeof(double) * m * n, op));
    if (op == 1) {                                                   /* build Q from K reflectors */
        int last = f == QL || f == RQ;
        dm QK = qprod(AF, T.e, last ? k - K : 0, last ? k : K);
        dm E = f == QR ? dm_sel(QK, 0, 0, m, n) : f == LQ ? dm_sel(QK, 0, 0, m, n) : f == QL ? dm_sel(QK, 0, m - n, m, n) : dm_sel(QK, n - m, 0, m, n);
        if (ws == 0) rc = BLD0[f](&A.m, &tau.m, K, &cf);
        else {
            armas_wbuf_t q = ARMAS_WBNULL; BLD[f](&A.m, &tau.m, K, &q, &cf);
            rc = BLD[f](&A.m, &tau.m, K, work(ws == 1 ? q.bytes : k * sizeof(double)), &cf); workdone();
        }
        mc_ops(1); gm_guard(&A, "A");
        EXPECT("build-rc", rc == 0, "returned %d error %d", rc, cf.error);
        dm Q1 = dm_get(&A);
        EXPECT("build-value", dm_dist(Q1, E) <= tol, "built Q differs from the product of reflectors by %g", dm_dist(Q1, E));
    } else if (op == 2) {                                            /* multiply */
        gm_t C; if (fl & ARMAS_RIGHT) gm_new(&C, p, N, lay); else gm_new(&C, N, p, lay);
        gm_rand(&C, 77 + p); gm_snap(&C); gm_snap(&A); gm_snap(&tau);
        dm C0 = dm_get(&C), Q = fl & ARMAS_TRANS ? dm_t(Qf) : Qf;
        dm E = fl & ARMAS_RIGHT ? dm_mul(C0, Q) : dm_mul(Q, C0);
        if (ws == 0) rc = MUL0[f](&C.m, &A.m, &tau.m, fl, &cf);
        else {
            armas_wbuf_t q = ARMAS_WBNULL; MUL[f](&C.m, &A.m, &tau.m, fl, &q, &cf);
            rc = MUL[f](&C.m, &A.m, &tau.m, fl, work(ws == 1 ? q.bytes : p * sizeof(double)), &cf); workdone();
        }
        mc_ops(1); gm_guard(&C, "C"); gm_same(&tau, "tau"); gm_same(&A, "A");
        EXPECT("mult-rc", rc == 0, "returned %d error %d", rc, cf.error);
        EXPECT("mult-value", dm_dist(dm_get(&C), E) <= tol, "differs from op(Q) by %g", dm_dist(dm_get(&C), E));
    } else if (op == 3) {                                            /* block reflector */
        gm_t Tm; gm_new(&Tm, k, k, lay); gm_snap(&Tm); gm_snap(&A); gm_snap(&tau);
        rc = REF[f](&Tm.m, &A.m, &tau.m, &cf); mc_ops(1);
        gm_guard(&Tm, "T"); gm_same(&A, "A"); gm_same(&tau, "tau");
        EXPECT("reflector-rc", rc == 0, "returned %d error %d", rc, cf.error);
        dm TT = dm_new(k, k); int up = f == QR || f == LQ;
        for (int j = 0; j < k; j++) for (int i = 0; i < k; i++) if (up ? i <= j : i >= j) AT(TT, i, j) = G(&Tm, i, j);
        /* H1..Hk = I - V*T*V' for QR and LQ (transposed Q); Hk..H1 for QL and RQ */
        dm X = dm_sub(dm_eye(N), dm_mul(dm_mul(V, TT), dm_t(V)));
        dm E = f == QR || f == QL ? Qf : dm_t(Qf);
        EXPECT("reflector-value", dm_dist(X, E) <= tol, "I - V*T*V' differs by %g", dm_dist(X, E));
    } else if (op == 4) {                                            /* solve */
        gm_t B; gm_new(&B, N, p, lay); gm_rand(&B, 5 + p); gm_snap(&B); gm_snap(&A); gm_snap(&tau);
        dm B0 = dm_get(&B); int ls = (f == QR) == !(fl & ARMAS_TRANS);
        if (ws == 0) rc = f == QR ? armas_qrsolve(&B.m, &A.m, &tau.m, fl, &cf) : armas_lqsolve(&B.m, &A.m, &tau.m, fl, &cf);
        else {
            armas_wbuf_t q = ARMAS_WBNULL; (f == QR ? armas_qrsolve_w : armas_lqsolve_w)(&B.m, &A.m, &tau.m, fl, &q, &cf);
            rc = (f == QR ? armas_qrsolve_w : armas_lqsolve_w)(&B.m, &A.m, &tau.m, fl, work(q.bytes), &cf); workdone();
        }
        mc_ops(1); gm_guard(&B, "B"); gm_same(&A, "A"); gm_same(&tau, "tau");
        EXPECT("solve-rc", rc == 0, "returned %d error %d", rc, cf.error);
        dm X = dm_get(&B), Af = f == QR ? A0 : dm_t(A0);             /* Af is tall: N x k */
        double xs = dm_max(X), tl = 1e-9 * (1 + xs);
        EXPECT("solve-finite", xs < 1e300, "solution not finite");
        if (ls) {
            dm X1 = dm_sel(X, 0, 0, k, p), Rs = dm_sub(dm_mul(Af, X1), B0), NE = dm_mul(dm_t(Af), Rs);
            EXPECT("least-squares", dm_max(NE) <= tl, "normal equations off by %g", dm_max(NE));
        } else {
            dm Rs = dm_sub(dm_mul(dm_t(Af), X), dm_sel(B0, 0, 0, k, p));
            EXPECT("min-norm-residual", dm_max(Rs) <= tl, "residual %g", dm_max(Rs));
            dm Qt = dm_sel(f == QR ? Qf : dm_t(Qf), 0, 0, N, k), Pr = dm_sub(X, dm_mul(Qt, dm_mul(dm_t(Qt), X)));
            EXPECT("min-norm", dm_max(Pr) <= tl, "component outside the range %g", dm_max(Pr));
        }
    }
}
static void qrt(void)
{
    m = mc_range("m", 1, mc_sel(7, 9, 11)); n = mc_range("n", 1, m); lb = mc_range("tr", 1, n + 1); pat = mc_choose("pat", NPAT); lay = mc_choose("lay", 2); ws = mc_choose("ws", 2);
    if (!mc_begin()) return;
    mc_note("qrt %dx%d T rows=%d pattern=%s layout=%d ws=%d", m, n, lb, pat_name[pat], lay, ws);
    cfg_set(&CFG_DEFAULT); cf = *armas_conf_default(); cf.error = 0; f = QR;
    gm_t T; gm_new(&A, m, n, lay); pat_fill(&A, pat, m * 31 + n * 7 + 3); gm_snap(&A); gm_new(&T, lb, n, lay); gm_snap(&T);
    A0 = dm_get(&A); scale = dm_max(A0); tol = 60.0 * (m + n) * DBL_EPSILON;
    int rc;
    if (ws == 0) rc = armas_qrtfactor(&A.m, &T.m, &cf);
    else { armas_wbuf_t q = ARMAS_WBNULL; armas_qrtfactor_w(&A.m, &T.m, &q, &cf); rc = armas_qrtfactor_w(&A.m, &T.m, work(q.bytes), &cf); workdone(); }
    mc_ops(1); gm_guard(&A, "A"); gm_guard(&T, "T");
    EXPECT("qrt-rc", rc == 0, "returned %d error %d", rc, cf.error);
    dm AF = dm_get(&A), R = dm_new(m, n), t0 = dm_new(n, 1); qprod(AF, t0.e, 0, 0);
    for (int j = 0; j < n; j++) for (int i = 0; i <= j; i++) AT(R, i, j) = AT(AF, i, j);
    dm Q = dm_eye(m);
    for (int j0 = 0; j0 < n; j0 += lb) {
        int w = n - j0 < lb ? n - j0 : lb; dm Tj = dm_new(w, w), Vj = dm_sel(V, 0, j0, m, w);
        for (int j = 0; j < w; j++) for (int i = 0; i <= j; i++) AT(Tj, i, j) = G(&T, i, j0 + j);
        Q = dm_mul(Q, dm_sub(dm_eye(m), dm_mul(dm_mul(Vj, Tj), dm_t(Vj))));
    }
    EXPECT("qrt-orthogonal", dm_orth(Q) <= tol, "|Q'Q-I| = %g", dm_orth(Q));
    EXPECT("qrt-product", dm_dist(dm_mul(Q, R), A0) <= tol * scale, "|A-QR| = %g scale %g", dm_dist(dm_mul(Q, R), A0), scale);
    mc_outcome(mc_hash(AF.e, sizeof(double) * m * n, lb));
}
void mc_body(void)
{
    f = mc_choose("family", 5);
    if (f == 4) { qrt(); return; }
    op = MC_PICK("op", 0, 1, 2, 3, 4);
    if (op == 4 && (f == QL || f == RQ)) { if (mc_begin()) mc_note("no solver"); return; }
    int big = mc_choose("big", 2);
    if (big) {
        /* larger than the minimum block size 32: shapes around it, and short workspaces */
        int k = MC_PICK("k", 33, 36, 41); int d = MC_PICK("d", 0, 1, 40);
        if (f == QR || f == QL) n = k, m = k + d; else m = k, n = k + d;
        lb = MC_PICK("lb", 36, 32, 64); ws = mc_choose("ws", op == 0 ? 4 : 3); pat = MC_PICK("pat", P_RAND, P_RANK1); lay = LP;
        if (op == 4) { if (pat != P_RAND) { if (mc_begin()) mc_note("skipped: singular"); return; } if (ws == 2) { if (mc_begin()) mc_note("skipped: ws"); return; } }
        if (op == 1) { if (!mc_thorough && d == 40) { if (mc_begin()) mc_note("thorough only"); return; } }
    } else {
        int M = op == 0 ? mc_sel(9, 11, 13) : mc_sel(6, 8, 10);
        int k = mc_range("k", 1, M), N = mc_range("N", k, M + 1);
        if (f == QR || f == QL) n = k, m = N; else m = k, n = N;
        lb = mc_thorough ? MC_PICK("lb", 0, 1, 2, 3, 4, 64) : MC_PICK("lb", 0, 2, 3, 64); ws = mc_choose("ws", op == 4 ? 2 : 3);
        if (op == 0) pat = mc_choose("pat", NPAT); else if (op == 4) pat = MC_PICK("pat", P_RAND, P_EYE, P_NEG); else pat = MC_PICK("pat", P_RAND, P_COL0, P_ZERO, P_ROW0, P_EYE);
        lay = mc_choose("lay", 2);
    }
    one();
}
