/* C15: bidiagonal, tridiagonal and Hessenberg reduction; building and multiplying with the factors */
#include "mc.h"
#include "cfg.h"
#include "num.h"
#include "work.h"
const char *mc_name = "reduce";
void mc_setup(void) {}
static armas_conf_t cf;
#define EXPECT(key, cond, ...) do { mc_cmp(1); if (!(cond)) { mc_fail(key, __VA_ARGS__); return; } } while (0)
static const double tole = 150 * DBL_EPSILON;
static void setlb(int lb) { cfg_t c = CFG_DEFAULT; c.lb = lb; cfg_set(&c); cf = *armas_conf_default(); cf.error = 0; }
enum { BD, TRDL, TRDU, HESS };
static const char *fam[] = {"bidiagonal", "tridiagonal lower", "tridiagonal upper", "hessenberg"};
/* k reflectors of order n held in the columns (or rows) of F: unit element of reflector j at v0 + j */
static dm refl(dm F, const double *tau, int n, int j, int unit, int row, int up)
{
    double *v = mc_mem(sizeof(double) * (n + 1)); memset(v, 0, sizeof(double) * n); int c = up ? j + 1 : j;
    if (up) { for (int i = 0; i < unit; i++) v[i] = AT(F, i, c); }
    else for (int i = unit + 1; i < n; i++) v[i] = row ? AT(F, c, i) : AT(F, i, c);
    v[unit] = 1; return dm_house(n, v, tau[j]);
}
static dm qof(int f, dm F, const double *tq, int k0, int k1)   /* reflectors k0..k1-1 of Q in the documented order */
{
    dm Q = dm_eye(F.r); int off = f == BD ? F.r < F.c : 1;
    for (int j = k0; j < k1; j++) { dm h = refl(F, tq, F.r, j, f == TRDU ? j : j + off, 0, f == TRDU); Q = f == TRDU ? dm_mul(h, Q) : dm_mul(Q, h); }
    return Q;
}
static dm pof(dm F, const double *tp, int k)
{
    dm P = dm_eye(F.c); int off = F.r >= F.c;
    for (int j = 0; j < k; j++) P = dm_mul(P, refl(F, tp, F.c, j, j + off, 1, 0));
    return P;
}
static int NQ(int f, int m, int n) { return f == BD ? (m >= n ? n : m - 1) : n - 1; }
static int NP(int m, int n) { return m >= n ? n - 1 : m; }
static double tv(gm_t *t, int i) { return t->m.rows == 1 && t->m.cols > 1 ? G(t, 0, i) : G(t, i, 0); }
static int reduce(int f, gm_t *A, gm_t *tq, gm_t *tp, int lb, int ws)
{
    int rc, m = A->m.rows, n = A->m.cols; armas_wbuf_t q = ARMAS_WBNULL; int fl = f == TRDU ? ARMAS_UPPER : ARMAS_LOWER; size_t b;
    setlb(lb);
    if (ws == 0) return f == BD ? armas_bdreduce(&A->m, &tq->m, &tp->m, &cf) : f == HESS ? armas_hessreduce(&A->m, &tq->m, &cf) : armas_trdreduce(&A->m, &tq->m, fl, &cf);
    if (f == BD) armas_bdreduce_w(&A->m, &tq->m, &tp->m, &q, &cf); else if (f == HESS) armas_hessreduce_w(&A->m, &tq->m, &q, &cf); else armas_trdreduce_w(&A->m, &tq->m, fl, &q, &cf);
    b = ws == 1 ? q.bytes : sizeof(double) * (ws == 3 ? 33 : 1) * (f == BD ? m + n : n);
    if (f == BD) rc = armas_bdreduce_w(&A->m, &tq->m, &tp->m, work(b), &cf); else if (f == HESS) rc = armas_hessreduce_w(&A->m, &tq->m, work(b), &cf); else rc = armas_trdreduce_w(&A->m, &tq->m, fl, work(b), &cf);
    workdone(); return rc;
}
static void check(int f, gm_t *A, int lb, int ws, int lay, int more, int sq, int p)
{
    int m = A->m.rows, n = A->m.cols, rc, mn = m < n ? m : n, lt = f == HESS ? n - 1 : mn; dm A0 = dm_get(A);
    if (f == TRDL || f == TRDU) { for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (f == TRDU ? i <= j : i >= j) AT(A0, i, j) = AT(A0, j, i) = G(A, i, j); else G(A, i, j) = NAN; }
    double scale = dm_max(A0), err; gm_snap(A);
    gm_t tq, tp; gm_new(&tq, lt, 1, lay); gm_new(&tp, mn, 1, lay); gm_snap(&tq); gm_snap(&tp);
    rc = reduce(f, A, &tq, &tp, lb, ws); mc_ops(1);
    gm_guard(A, "A"); gm_guard(&tq, "tauq"); gm_guard(&tp, "taup");
    EXPECT("reduce-rc", rc == 0, "returned %d error %d", rc, cf.error);
    int nq = NQ(f, m, n), np = f == BD ? NP(m, n) : 0;
    double *q = mc_mem(sizeof(double) * (lt + 1)), *t = mc_mem(sizeof(double) * (mn + 1));
    for (int i = 0; i < lt; i++) q[i] = G(&tq, i, 0);
    for (int i = 0; i < mn; i++) t[i] = G(&tp, i, 0);
    dm F = dm_get(A), B = dm_new(m, n), Q, P;
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
        int keep = f == BD ? (m >= n ? j == i || j == i + 1 : j == i || i == j + 1) : f == HESS ? i <= j + 1 : f == TRDL ? i == j || i == j + 1 : i == j || j == i + 1;
        if (keep) { AT(B, i, j) = G(A, i, j); if (f == TRDL || f == TRDU) AT(B, j, i) = G(A, i, j); }
        if ((f == TRDL && i < j) || (f == TRDU && i > j)) EXPECT("opposite-triangle", mc_biteq(G(A, i, j), S(A, i, j)), "element %d,%d written", i, j);
    }
    for (int i = 0; i < nq; i++) EXPECT("tau", isfinite(q[i]) && fabs(q[i]) <= 2.1, "tauq[%d] = %g", i, q[i]);
    for (int i = 0; i < np; i++) EXPECT("tau", isfinite(t[i]) && fabs(t[i]) <= 2.1, "taup[%d] = %g", i, t[i]);
    Q = qof(f, F, q, 0, nq); P = f == BD ? pof(F, t, np) : Q;
    err = dm_orth(Q); EXPECT("Q-orthogonal", err <= tole * (m + n), "|QQ'-I| = %g", err);
    err = dm_orth(P); EXPECT("P-orthogonal", err <= tole * (m + n), "|PP'-I| = %g", err);
    err = dm_dist(dm_mul(dm_mul(Q, B), dm_t(P)), A0);
    EXPECT("product", err < 1e300 && err <= tole * (m + n) * scale, "|A - QBP'| = %g, |A| = %g", err, scale);
    mc_outcome(mc_hash(B.e, sizeof(double) * m * n, f));
    if (!more) return;
    gm_t At; gm_new(&At, m, n, lay);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) G(&At, i, j) = G(A, i, j);
    gm_snap(&At); gm_snap(&tq); gm_snap(&tp);
    /* a square bidiagonal reduction is upper; the flag LOWER would select the other reading */
    if (more == 1) for (int which = 0; which < (f == BD ? 2 : 1); which++) for (int o = 0; o < 5; o++) for (int w = 0; w < (sq ? 1 : 3); w++) {
        static const int OPS[] = {ARMAS_LEFT, ARMAS_LEFT | ARMAS_TRANS, ARMAS_RIGHT, ARMAS_RIGHT | ARMAS_TRANS, 0};
        int fl = OPS[o], N = which ? n : m, rt = !!(fl & ARMAS_RIGHT); dm X = which ? P : Q; armas_wbuf_t wq = ARMAS_WBNULL;
        gm_t C; gm_new(&C, rt ? p : N, rt ? N : p, lay); gm_rand(&C, m * 31 + n + o); gm_snap(&C); dm C0 = dm_get(&C);
        int xf = fl | (f == BD ? which ? ARMAS_MULTP : ARMAS_MULTQ : f == TRDU ? ARMAS_UPPER : f == TRDL ? ARMAS_LOWER : 0); gm_t *tt = which ? &tp : &tq;
        cf.error = 0;
        if (w == 0) rc = f == BD ? armas_bdmult(&C.m, &At.m, &tt->m, xf, &cf) : f == HESS ? armas_hessmult(&C.m, &At.m, &tt->m, xf, &cf) : armas_trdmult(&C.m, &At.m, &tt->m, xf, &cf);
        else {
            if (f == BD) armas_bdmult_w(&C.m, &At.m, &tt->m, xf, &wq, &cf); else if (f == HESS) armas_hessmult_w(&C.m, &At.m, &tt->m, xf, &wq, &cf); else armas_trdmult_w(&C.m, &At.m, &tt->m, xf, &wq, &cf);
            size_t b = w == 1 ? wq.bytes : sizeof(double) * (C.m.rows > C.m.cols ? C.m.rows : C.m.cols); if (b == 0) b = 8;
            work(b); rc = f == BD ? armas_bdmult_w(&C.m, &At.m, &tt->m, xf, &wk_b, &cf) : f == HESS ? armas_hessmult_w(&C.m, &At.m, &tt->m, xf, &wk_b, &cf) : armas_trdmult_w(&C.m, &At.m, &tt->m, xf, &wk_b, &cf); workdone();
        }
        mc_ops(1); gm_guard(&C, "C"); gm_same(&At, "A"); gm_same(tt, "tau");
        EXPECT("mult-rc", rc == 0, "%s flags 0x%x ws=%d returned %d error %d", which ? "P" : "Q", xf, w, rc, cf.error);
        dm X1 = fl & ARMAS_TRANS ? dm_t(X) : X; err = dm_dist(rt ? dm_mul(C0, X1) : dm_mul(X1, C0), dm_get(&C));
        EXPECT("mult", err <= tole * (m + n) * 2, "%s flags 0x%x ws=%d differs from the explicit product by %g", which ? "P" : "Q", xf, w, err);
    }
    if (more == 2 && f != HESS) for (int which = 0; which < (f == BD ? 2 : 1); which++) {
        int nk = which ? np : nq;
        for (int K = sq ? nk : 1; K <= nk + 1; K++) for (int w = 0; w < (sq ? 2 : 3); w++) {
            int k = K > nk ? nk : K, fl = f == BD ? which ? ARMAS_WANTP : ARMAS_WANTQ : f == TRDU ? ARMAS_UPPER : ARMAS_LOWER; armas_wbuf_t wq = ARMAS_WBNULL;
            if (K > nk && f == BD && (which ? m < n : m >= n)) continue;   /* no embedded factor: K is bounded by the order */
            gm_t C; gm_new(&C, m, n, lay); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) G(&C, i, j) = G(&At, i, j); gm_snap(&C);
            gm_t *tt = which ? &tp : &tq; cf.error = 0;
            if (w == 0) rc = f == BD ? armas_bdbuild(&C.m, &tt->m, K, fl, &cf) : armas_trdbuild(&C.m, &tt->m, K, fl, &cf);
            else {
                if (f == BD) armas_bdbuild_w(&C.m, &tt->m, K, fl, &wq, &cf); else armas_trdbuild_w(&C.m, &tt->m, K, fl, &wq, &cf);
                size_t b = w == 1 ? wq.bytes : mn * sizeof(double);
                work(b); rc = f == BD ? armas_bdbuild_w(&C.m, &tt->m, K, fl, &wk_b, &cf) : armas_trdbuild_w(&C.m, &tt->m, K, fl, &wk_b, &cf); workdone();
            }
            mc_ops(1); gm_guard(&C, "A"); gm_same(tt, "tau");
            EXPECT("build-rc", rc == 0, "%s K=%d ws=%d returned %d error %d", which ? "P" : "Q", K, w, rc, cf.error);
            dm X = which ? dm_t(pof(F, t, k)) : f == TRDU ? qof(f, F, q, nq - k, nq) : qof(f, F, q, 0, k);
            int R = which ? (m >= n ? n : m) : m, Cc = which ? n : (m >= n ? n : m);
            err = dm_dist(dm_sel(X, 0, 0, R, Cc), dm_sel(dm_get(&C), 0, 0, R, Cc));
            EXPECT("build", err <= tole * (m + n), "%s K=%d ws=%d differs from the explicit product by %g", which ? "P'" : "Q", K, w, err);
        }
    }
}
void mc_body(void)
{
    int f = mc_choose("family", 4), kind = mc_choose("kind", 3), m, n, lay;
    if (kind == 0) {                 /* small alphabet */
        int shape = mc_choose("shape", f == BD ? 5 : f == HESS ? 3 : 3), c[12], lb = MC_PICK("lb", 0, 2);
        static const int S[5][2] = {{2, 2}, {3, 2}, {2, 3}, {3, 3}, {4, 2}};
        if (f == BD) m = S[shape][0], n = S[shape][1]; else m = n = shape + (f == HESS ? 1 : 2);
        if (f == HESS && n == 3 && lb && !mc_thorough) { if (mc_begin()) mc_note("thorough only"); return; }
        int sym = f == TRDL || f == TRDU, k = 0, v = n == 4 || m * n >= 8 ? 1 : 2;
        for (int j = 0; j < n; j++) for (int i = sym ? j : 0; i < m; i++) c[k++] = mc_range("a", -v, v);
        if (!mc_begin()) return;
        mc_note("%s %dx%d lb=%d small alphabet", fam[f], m, n, lb);
        gm_t A; gm_new(&A, m, n, LP); k = 0;
        for (int j = 0; j < n; j++) for (int i = sym ? j : 0; i < m; i++) { G(&A, i, j) = c[k]; if (sym) G(&A, j, i) = c[k]; k++; }
        check(f, &A, lb, 0, LT, 0, 0, 2);
    } else {
        int big = kind == 2, more = mc_range("op", 0, 2), lb = big ? MC_PICK("lb", 0, 4, 32, 36) : mc_thorough ? MC_PICK("lb", 0, 1, 2, 3, 4, 5, 64) : MC_PICK("lb", 0, 2, 3, 64), ws = mc_choose("ws", big ? 4 : 3), pat, p = 1;
        lay = big ? LP : mc_choose("lay", 2);
        int N = mc_sel(7, 9, 12);
        if (big) { m = MC_PICK("m", 40, 73); n = f == BD ? MC_PICK("n", 40, 73) : m; pat = MC_PICK("pat", P_RAND, P_RANK1); }
        else { m = mc_range("m", 1, N); n = f == BD ? mc_range("n", 1, N) : m; pat = more ? MC_PICK("pat", P_RAND, P_COL0, P_EYE, P_DUP) : mc_choose("pat", NPAT); }
        if (more == 1) p = MC_PICK("p", 1, 4, 9);
        if (more && ws) { if (mc_begin()) mc_note("default workspace only"); return; }
        if (!mc_begin()) return;
        mc_note("%s op=%d %dx%d pattern=%s layout=%d lb=%d ws=%d p=%d", fam[f], more, m, n, pat_name[pat], lay, lb, ws, p);
        gm_t A; gm_new(&A, m, n, lay); pat_fill(&A, pat, m * 19 + n);
        check(f, &A, lb, ws, lay, more, big, p);
    }
}
