/* C13: LU and Cholesky: factor, solve, invert, update; failure reports */
#include "mc.h"
#include "cfg.h"
#include "num.h"
#include "work.h"
const char *mc_name = "luchol";
void mc_setup(void) {}
static armas_conf_t cf;
#define EXPECT(key, cond, ...) do { mc_cmp(1); if (!(cond)) { mc_fail(key, __VA_ARGS__); return; } } while (0)
static const double tole = 200 * DBL_EPSILON;
static void setlb(int lb) { cfg_t c = CFG_DEFAULT; c.lb = lb; cfg_set(&c); cf = *armas_conf_default(); cf.error = 0; }
static armas_pivot_t *pnew(int n) { armas_pivot_t *P = mc_mem(sizeof *P); armas_pivot_make(P, n, mc_mem(sizeof(int) * (n + 1))); for (int i = 0; i <= n; i++) P->indexes[i] = -99; return P; }
static int pguard(armas_pivot_t *P) { return P->indexes[P->npivots] == -99; }
static dm prows(dm a, armas_pivot_t *P)    /* forward row interchanges */
{
    dm b = dm_copy(a);
    for (int k = 0; k < P->npivots; k++) { int q = P->indexes[k] - 1; if (q < 0 || q >= b.r || q == k) continue;
        for (int j = 0; j < b.c; j++) { double t = AT(b, k, j); AT(b, k, j) = AT(b, q, j); AT(b, q, j) = t; } }
    return b;
}
static void fill_rhs(gm_t *B) { for (int j = 0; j < B->m.cols; j++) for (int i = 0; i < B->m.rows; i++) G(B, i, j) = ((i * 7 + j * 5 + 3) % 11) - 5; }
/* ---- LU --------------------------------------------------------------------------------------- */
static double det(dm a, int k)
{
    if (k == 0) return 1; if (k == 1) return AT(a, 0, 0); if (k == 2) return AT(a, 0, 0) * AT(a, 1, 1) - AT(a, 0, 1) * AT(a, 1, 0);
    double d = 0; for (int c = 0; c < 3; c++) d += AT(a, 0, c) * (AT(a, 1, (c + 1) % 3) * AT(a, 2, (c + 2) % 3) - AT(a, 1, (c + 2) % 3) * AT(a, 2, (c + 1) % 3)); return d;
}
static void lu_check(gm_t *A, int piv, int lb, int exact, int p, int lay)
{
    int m = A->m.rows, n = A->m.cols, k = m < n ? m : n;
    gm_snap(A); dm A0 = dm_get(A); double scale = dm_max(A0); armas_pivot_t *P = piv ? pnew(k) : 0;
    setlb(lb);
    int rc = armas_lufactor(&A->m, P, &cf); mc_ops(1); gm_guard(A, "A");
    if (piv) EXPECT("pivot-overrun", pguard(P), "wrote behind the pivot vector");
    dm F = dm_get(A);
    mc_outcome(mc_hash(F.e, sizeof(double) * m * n, piv));
    if (exact) {     /* m == n <= 3, small integers: arithmetic is exact, so singularity is decided */
        int sing = 0;
        if (piv) sing = det(A0, n) == 0; else for (int i = 1; i <= n; i++) if (det(A0, i) == 0) sing = 1;
        EXPECT("singular-report", sing ? rc < 0 : rc == 0, "returned %d, matrix is %s", rc, sing ? "singular" : "regular");
        if (sing) { EXPECT("singular-code", cf.error == ARMAS_ESINGULAR, "error code %d", cf.error); if (piv) ; else return; }
    } else if (rc < 0) { EXPECT("singular-code", cf.error == ARMAS_ESINGULAR, "rc %d error code %d", rc, cf.error); }
    if (!piv && rc < 0) return;
    dm L = dm_new(m, k), U = dm_new(k, n);
    for (int j = 0; j < k; j++) for (int i = j; i < m; i++) { AT(L, i, j) = i == j ? 1 : AT(F, i, j); if (piv && i > j) EXPECT("multiplier", fabs(AT(F, i, j)) <= 1.0000001, "L(%d,%d) = %g", i, j, AT(F, i, j)); }
    for (int j = 0; j < n; j++) for (int i = 0; i <= j && i < k; i++) AT(U, i, j) = AT(F, i, j);
    if (piv) for (int i = 0; i < k; i++) EXPECT("pivot-range", P->indexes[i] >= i + 1 && P->indexes[i] <= m, "P[%d] = %d", i, P->indexes[i]);
    dm PA = piv ? prows(A0, P) : A0; double gr0 = piv ? 0 : dm_max(L) * dm_max(U), gr = 1 + gr0, err = dm_dist(dm_mul(L, U), PA);
    EXPECT("lu-product", err < 1e300 && err <= tole * (m + n) * (scale + gr0), "|PA-LU| = %g", err);
    if (m != n || rc < 0) return;
    double um = INFINITY; for (int i = 0; i < n; i++) if (fabs(AT(F, i, i)) < um) um = fabs(AT(F, i, i));
    if (um < 1e-8 * scale || dm_max(U) > 1e6 * scale) return;       /* solve and inverse: regular matrices only */
    for (int tr = 0; tr < 2; tr++) {
        gm_t B; gm_new(&B, n, p, lay); fill_rhs(&B); gm_snap(&B); gm_snap(A); dm B0 = dm_get(&B);
        rc = armas_lusolve(&B.m, &A->m, P, tr ? ARMAS_TRANS : 0, &cf); mc_ops(1); gm_guard(&B, "B"); gm_same(A, "A");
        EXPECT("lusolve-rc", rc == 0, "returned %d", rc);
        dm X = dm_get(&B); err = dm_dist(dm_mul(tr ? dm_t(A0) : A0, X), B0);
        EXPECT("lusolve", err < 1e300 && err <= 1e-9 * (1 + dm_max(X) * scale * (gr)), "trans=%d |AX-B| = %g, |X| = %g", tr, err, dm_max(X));
    }
    for (int ws = 0; ws < (n > 36 ? 4 : 3); ws++) {
        gm_t I; gm_new(&I, n, n, lay); dm_put(&I, F); gm_snap(&I);
        if (ws == 0) rc = armas_luinverse(&I.m, P, &cf);
        else { armas_wbuf_t q = ARMAS_WBNULL; armas_luinverse_w(&I.m, P, &q, &cf); rc = armas_luinverse_w(&I.m, P, work(ws == 1 ? q.bytes : (ws == 3 ? 33 : 1) * n * sizeof(double)), &cf); workdone(); }
        mc_ops(1); gm_guard(&I, "inverse");
        EXPECT("luinverse-rc", rc == 0, "ws=%d returned %d error %d", ws, rc, cf.error);
        dm X = dm_get(&I); err = dm_dist(dm_mul(A0, X), dm_eye(n));
        EXPECT("luinverse", err < 1e300 && err <= 1e-9 * (1 + dm_max(X) * scale * gr), "ws=%d |A*inv-I| = %g", ws, err);
    }
}
static void lu_all(void)
{
    int kind = mc_choose("kind", 2), piv = mc_choose("piv", 2);
    if (kind == 0) {                 /* every 3x3 (and 2x2) matrix over {-1,0,1} */
        int n = mc_range("n", 1, 3), lb = MC_PICK("lb", 0, 1, 2), c[9];
        for (int i = 0; i < n * n; i++) c[i] = mc_range("a", -1, 1);
        if (!mc_begin()) return;
        mc_note("lu n=%d piv=%d lb=%d small alphabet %d %d %d %d %d %d %d %d %d", n, piv, lb, c[0], n > 1 ? c[1] : 0, n > 1 ? c[2] : 0, n > 1 ? c[3] : 0, n > 2 ? c[4] : 0, n > 2 ? c[5] : 0, n > 2 ? c[6] : 0, n > 2 ? c[7] : 0, n > 2 ? c[8] : 0);
        gm_t A; gm_new(&A, n, n, LP); for (int i = 0; i < n * n; i++) G(&A, i % n, i / n) = c[i];
        lu_check(&A, piv, lb, 1, 2, LT);
    } else {
        int M = mc_sel(9, 12, 15), m = mc_range("m", 1, M + 1), n = m > M ? 0 : mc_range("n", 1, M), lb = m > M ? MC_PICK("lb", 0, 4, 32, 36, 64) : MC_PICK("lb", 0, 1, 2, 3, 4, 64), pat = mc_choose("pat", NPAT + 2), lay = mc_choose("lay", 2), p = MC_PICK("p", 1, 5);
        if (m > M) m = n = MC_PICK("big", 40, 70);
        if (!mc_begin()) return;
        mc_note("lu %dx%d piv=%d lb=%d pattern=%s layout=%d p=%d", m, n, piv, lb, pat < NPAT ? pat_name[pat] : pat == NPAT ? "diagonally dominant" : "anti-diagonal", lay, p);
        gm_t A; gm_new(&A, m, n, lay);
        if (pat < NPAT) pat_fill(&A, pat, m * 13 + n); else { gm_rand(&A, m + n * 3); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (pat == NPAT) { if (i == j) G(&A, i, j) += 2 * n; } else G(&A, i, j) = G(&A, i, j) * 0.01 + (i + j == m - 1 ? 3 : 0); }
        if (!piv && pat != NPAT && pat != P_EYE && pat != P_NEG) { /* without pivoting only the report and the product for regular leading minors */ }
        lu_check(&A, piv, lb, 0, p, lay);
    }
}
/* ---- Cholesky --------------------------------------------------------------------------------- */
static void hide(gm_t *A, int fl) { for (int j = 0; j < A->m.cols; j++) for (int i = 0; i < A->m.rows; i++) if (fl & ARMAS_UPPER ? i > j : i < j) G(A, i, j) = NAN; }
static int hidden_ok(gm_t *A, int fl)
{
    for (int j = 0; j < A->m.cols; j++) for (int i = 0; i < A->m.rows; i++) if ((fl & ARMAS_UPPER ? i > j : i < j) && !mc_biteq(G(A, i, j), S(A, i, j))) { mc_fail("opposite-triangle", "element %d,%d written: %g", i, j, G(A, i, j)); return 0; }
    return 1;
}
static dm tri(gm_t *A, int fl, int r) /* factor L (lower form) from the stored triangle, first r columns */
{
    int n = A->m.rows; dm L = dm_new(n, n);
    for (int j = 0; j < r; j++) for (int i = j; i < n; i++) AT(L, i, j) = fl & ARMAS_UPPER ? G(A, j, i) : G(A, i, j);
    return L;
}
static dm symget(gm_t *A, int fl) { int n = A->m.rows; dm s = dm_new(n, n); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) AT(s, i, j) = (fl & ARMAS_UPPER ? i <= j : i >= j) ? G(A, i, j) : G(A, j, i); return s; }
static dm psym(dm a, armas_pivot_t *P) /* forward symmetric interchanges */
{
    dm b = dm_copy(a); int n = a.r;
    for (int k = 0; k < n; k++) { int q = P->indexes[k] - 1; if (q < 0 || q >= n || q == k) continue;
        for (int j = 0; j < n; j++) { double t = AT(b, k, j); AT(b, k, j) = AT(b, q, j); AT(b, q, j) = t; }
        for (int j = 0; j < n; j++) { double t = AT(b, j, k); AT(b, j, k) = AT(b, j, q); AT(b, j, q) = t; } }
    return b;
}
static void chol_check(gm_t *A, int fl, int lb, int piv, int pd /* 1: positive definite, 0: unknown, -1: clearly not */, int rank, int p, int lay)
{
    int n = A->m.rows; dm A0 = symget(A, fl); double scale = dm_max(A0), err;
    hide(A, fl); gm_snap(A); setlb(lb); armas_pivot_t *P = piv ? pnew(n) : ARMAS_NOPIVOT;
    int rc;
    if (piv < 2) rc = armas_cholfactor(&A->m, P, fl, &cf);
    else if (piv == 2) rc = armas_cholfactor_w(&A->m, P, fl, ARMAS_NOWORK, &cf);
    else { armas_wbuf_t q = ARMAS_WBNULL; armas_cholfactor_w(&A->m, P, fl, &q, &cf); rc = armas_cholfactor_w(&A->m, P, fl, work(q.bytes), &cf); workdone(); }
    mc_ops(1); gm_guard(A, "A"); if (!hidden_ok(A, fl)) return;
    if (piv) EXPECT("pivot-overrun", pguard(P), "wrote behind the pivot vector");
    if (!piv) {
        if (pd == 1) EXPECT("chol-rc", rc == 0, "positive definite: returned %d error %d", rc, cf.error);
        if (pd == -1) { EXPECT("chol-reject", rc < 0 && (cf.error == ARMAS_ENEGATIVE || cf.error == ARMAS_ESINGULAR), "not positive definite, but returned %d error %d", rc, cf.error); return; }
        if (rc != 0) return;
        rank = n;
    } else {
        if (rank == n) EXPECT("cholpv-rank", rc == 0, "full rank, but returned %d", rc);
        else if (rank > 0) EXPECT("cholpv-rank", rc == rank, "rank is %d, but returned %d", rank, rc);
        else return;
        for (int i = 0; i < rank; i++) EXPECT("pivot-range", P->indexes[i] >= i + 1 && P->indexes[i] <= n, "P[%d] = %d", i, P->indexes[i]);
        for (int i = rank; i < n; i++) if (P->indexes[i] <= 0 || P->indexes[i] > n) P->indexes[i] = i + 1; 
    }
    dm L = tri(A, fl, rank), T = dm_mul(L, dm_t(L)), E = piv ? psym(A0, P) : A0;
    err = dm_dist(T, E);
    EXPECT("chol-product", err < 1e300 && err <= tole * n * scale * 10, "|A - LL'| = %g scale %g rank %d", err, scale, rank);
    for (int i = 0; i < rank; i++) EXPECT("chol-diagonal", AT(L, i, i) > 0, "diagonal %d is %g", i, AT(L, i, i));
    if (piv) for (int i = 1; i < rank; i++) EXPECT("cholpv-order", AT(L, i, i) <= AT(L, i - 1, i - 1) * (1 + 1e-9), "diagonal not descending at %d", i);
    mc_outcome(mc_hash(L.e, sizeof(double) * n * n, piv));
    if (rank < n || AT(L, n - 1, n - 1) < 1e-6 * sqrt(scale)) return;
    gm_t B; gm_new(&B, n, p, lay); fill_rhs(&B); gm_snap(&B); gm_snap(A); dm B0 = dm_get(&B);
    rc = armas_cholsolve(&B.m, &A->m, P, fl, &cf); mc_ops(1); gm_guard(&B, "B"); gm_same(A, "A");
    EXPECT("cholsolve-rc", rc == 0, "returned %d", rc);
    dm X = dm_get(&B); err = dm_dist(dm_mul(A0, X), B0);
    EXPECT("cholsolve", err < 1e300 && err <= 1e-9 * (1 + dm_max(X) * scale), "|AX-B| = %g, |X| = %g", err, dm_max(X));
    if (piv) return;
    for (int ws = 0; ws < (n > 36 ? 4 : 3); ws++) {
        gm_t I; gm_new(&I, n, n, lay); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) G(&I, i, j) = G(A, i, j); gm_snap(&I);
        if (ws == 0) rc = armas_cholinverse(&I.m, fl, &cf);
        else { armas_wbuf_t q = ARMAS_WBNULL; armas_cholinverse_w(&I.m, fl, &q, &cf); rc = armas_cholinverse_w(&I.m, fl, work(ws == 1 ? q.bytes : (ws == 3 ? 33 : 1) * n * sizeof(double)), &cf); workdone(); }
        mc_ops(1); gm_guard(&I, "inverse"); if (!hidden_ok(&I, fl)) return;
        EXPECT("cholinverse-rc", rc == 0, "ws=%d returned %d error %d", ws, rc, cf.error);
        dm V = symget(&I, fl); err = dm_dist(dm_mul(A0, V), dm_eye(n));
        EXPECT("cholinverse", err < 1e300 && err <= 1e-9 * (1 + dm_max(V) * scale), "ws=%d |A*inv-I| = %g", ws, err);
    }
    /* rank one update with a column or a row vector */
    for (int row = 0; row < 2; row++) {
        gm_t U, x; gm_new(&U, n, n, lay); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) G(&U, i, j) = G(A, i, j); gm_snap(&U);
        if (row) gm_new(&x, 1, n, lay); else gm_new(&x, n, 1, lay);
        dm xv = dm_new(n, 1); for (int i = 0; i < n; i++) { xv.e[i] = p == 1 && i % 2 ? 0 : (i * 3 % 5) - 1.5; G(&x, row ? 0 : i, row ? i : 0) = xv.e[i]; } gm_snap(&x);
        rc = armas_cholupdate(&U.m, &x.m, fl, &cf); mc_ops(1); gm_guard(&U, "U"); gm_guard(&x, "x"); if (!hidden_ok(&U, fl)) return;
        EXPECT("cholupdate-rc", rc == 0, "returned %d", rc);
        dm L1 = tri(&U, fl, n), E1 = dm_mul(xv, dm_t(xv)); for (int i = 0; i < n * n; i++) E1.e[i] += A0.e[i];
        err = dm_dist(dm_mul(L1, dm_t(L1)), E1);
        EXPECT("cholupdate", err < 1e300 && err <= tole * n * 10 * (scale + 9), "row=%d |A+xx'-LL'| = %g", row, err);
    }
}
/* stopping criteria: the factor ends at the first pivot of the (reference) pivoted elimination which is not above the limit */
static void chol_stop(int n, int fl, int lb, int piv, int perm, int var, int cut, int mult, int lay)
{
    gm_t A; gm_new(&A, n, n, lay); dm Gm = dm_new(n, n); int ord[4] = {0, 1, 2, 3}, q = perm;
    for (int i = n - 1; i > 0; i--) { int k = q % (i + 1), t = ord[i]; q /= i + 1; ord[i] = ord[k]; ord[k] = t; }
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) AT(Gm, ord[i], j) = var == 2 ? 0 : i == j ? 16.0 / (1 << (2 * j)) : i < j || !var ? 0 : ((i + 2 * j) % 3 - 1) * 0.25;
    dm M = dm_mul(Gm, dm_t(Gm)), S; for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) G(&A, i, j) = AT(M, i, j);
    /* reference elimination */
    double pv[5], mx = 0; S = dm_copy(M); int used[4] = {0};
    for (int i = 0; i < n; i++) if (AT(M, i, i) > mx) mx = AT(M, i, i);
    for (int k = 0; k < n; k++) {
        int b = -1; for (int i = 0; i < n; i++) if (!used[i] && (b < 0 || AT(S, i, i) > AT(S, b, b))) b = i;
        pv[k] = AT(S, b, b); used[b] = 1; if (pv[k] <= 0) { for (; k < n; k++) pv[k] = 0; break; }
        for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (!used[i] && !used[j]) AT(S, i, j) -= AT(S, i, b) * AT(S, j, b) / pv[k];
    }
    int r = var == 2 ? 0 : cut; double stop = var == 2 ? 0 : cut == n ? pv[n - 1] / 2 : cut == 0 ? mx * 2 : sqrt(pv[cut] * pv[cut - 1]);
    gm_snap(&A); setlb(lb); if (mult) cf.smult = stop / (mx ? mx : 1); else cf.stop = stop;
    armas_pivot_t *P = pnew(n); dm A0 = symget(&A, fl); hide(&A, fl); gm_snap(&A); int rc;
    if (piv == 1) rc = armas_cholfactor(&A.m, P, fl, &cf);
    else if (piv == 2) rc = armas_cholfactor_w(&A.m, P, fl, ARMAS_NOWORK, &cf);
    else { armas_wbuf_t w = ARMAS_WBNULL; armas_cholfactor_w(&A.m, P, fl, &w, &cf); rc = armas_cholfactor_w(&A.m, P, fl, work(w.bytes), &cf); workdone(); }
    mc_ops(1); gm_guard(&A, "A"); if (!hidden_ok(&A, fl)) return;
    EXPECT("stop-rank", rc == (r == n ? 0 : r), "rank is %d with limit %g, but returned %d", r, stop, rc);
    for (int i = 0; i < r; i++) EXPECT("pivot-range", P->indexes[i] >= i + 1 && P->indexes[i] <= n, "P[%d] = %d", i, P->indexes[i]);
    for (int i = r; i < n; i++) P->indexes[i] = i + 1;
    dm L = tri(&A, fl, n), T = dm_mul(L, dm_t(L)), E = psym(A0, P);
    for (int j = 0; j < r; j++) EXPECT("stop-pivot", fabs(AT(L, j, j) * AT(L, j, j) - pv[j]) <= 1e-9 * mx, "pivot %d is %g, expected %g", j, AT(L, j, j) * AT(L, j, j), pv[j]);
    for (int j = 0; j < n; j++) for (int i = j; i < n; i++) {
        if (j < r) EXPECT("stop-product", fabs(AT(T, i, j) - AT(E, i, j)) <= 1e-9 * mx, "element %d,%d", i, j);
        else EXPECT("stop-trailing", AT(L, i, j) == 0, "trailing element %d,%d is %g", i, j, AT(L, i, j));
    }
}
static void chol_all(void)
{
    int kind = mc_choose("kind", 4), fl = MC_PICK("fl", ARMAS_LOWER, ARMAS_UPPER), piv = mc_choose("piv", 4);
    if (kind == 3) {
        if (!piv) return;
        int n = mc_range("n", 1, 4), lb = MC_PICK("lb", 0, 1, 2, 3), perm = mc_choose("perm", n == 1 ? 1 : n == 2 ? 2 : n == 3 ? 6 : 24), var = mc_choose("var", 3), cut = var == 2 ? 0 : mc_range("cut", 0, n), mult = mc_choose("mult", 2), lay = mc_choose("lay", 2);
        if (!mc_begin()) return;
        mc_note("chol n=%d flags=0x%x piv=%d lb=%d perm %d variant %d, stop after %d, %s limit", n, fl, piv, lb, perm, var, cut, mult ? "relative" : "absolute");
        chol_stop(n, fl, lb, piv, perm, var, cut, mult, lay); return;
    }
    if (kind == 0) {                  /* every symmetric 2x2 / 3x3 over small alphabets */
        int n = mc_range("n", 1, 3), lb = MC_PICK("lb", 0, 1, 2); double c[3][3];
        for (int j = 0; j < n; j++) for (int i = j; i < n; i++) c[i][j] = c[j][i] = i == j ? mc_range("d", -1, 3) : mc_range("o", -2, 2);
        if (!mc_begin()) return;
        mc_note("chol n=%d flags=0x%x piv=%d lb=%d diag %g %g %g", n, fl, piv, lb, c[0][0], n > 1 ? c[1][1] : 0, n > 2 ? c[2][2] : 0);
        gm_t A; gm_new(&A, n, n, LP); dm D = dm_new(n, n); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) AT(D, i, j) = G(&A, i, j) = c[i][j];
        /* leading minors; the order of elimination is from the top for either triangle */
        int pd = 1; for (int k = 1; k <= n && pd == 1; k++) { double d = det(D, k); if (d < 0) pd = -1; else if (d == 0) pd = 0; }
        if (pd == 0 && (n == 1 || (D.e[0] == 0))) pd = -1;
        chol_check(&A, fl, lb, piv, pd, pd == 1 ? n : 0, 2, LT);
    } else if (kind == 1) {           /* positive definite and indefinite, all blockings */
        int n = mc_range("n", 1, mc_sel(10, 14, 18)), lb = MC_PICK("lb", 0, 1, 2, 3, 4, 5, 36, 64), lay = mc_choose("lay", 2), p = MC_PICK("p", 1, 4), big = n == 1 ? MC_PICK("big", 0, 40, 70) : 0, bad = mc_range("bad", -1, n - 1), sc = mc_choose("scale", 3);
        if (big) { n = big; bad = bad == 0 ? n - 2 : -1; }
        if (!mc_begin()) return;
        mc_note("chol n=%d flags=0x%x piv=%d lb=%d layout=%d p=%d negative pivot at %d scale %d", n, fl, piv, lb, lay, p, bad, sc);
        gm_t A, R; gm_new(&A, n, n, lay); gm_new(&R, n, n, LT); gm_rand(&R, n);
        double s = sc == 0 ? 1 : sc == 1 ? 1e-4 : 1e4; dm D = dm_get(&R), M = dm_mul(dm_t(D), D);
        for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) G(&A, i, j) = s * (AT(M, i, j) + (i == j ? 1 + (i * 5 % 7) : 0));
        if (bad >= 0) G(&A, bad, bad) = bad & 1 ? -0.5 * s : 0;
        if (piv && bad >= 0) { mc_note("(skipped)"); return; }
        chol_check(&A, fl, lb, piv, bad >= 0 ? -1 : 1, n, p, lay);
    } else {                          /* exactly rank deficient, integers: A = G*G' */
        int n = mc_range("n", 2, mc_sel(7, 9, 12)), r = mc_range("r", 1, n - 1), lb = MC_PICK("lb", 0, 1, 2, 3, 4), lay = mc_choose("lay", 2), v = mc_choose("v", 3);
        if (!mc_begin()) return;
        mc_note("chol n=%d rank %d flags=0x%x piv=%d lb=%d variant %d", n, r, fl, piv, lb, v);
        gm_t A; gm_new(&A, n, n, lay); dm Gm = dm_new(n, r);
        for (int j = 0; j < r; j++) for (int i = 0; i < n; i++) { int k = v == 1 ? n - 1 - i : i; AT(Gm, i, j) = k < j ? 0 : k == j ? 2 + j : v == 2 ? (k + j) % 2 : ((k * 3 + j) % 5) - 2; }
        dm M = dm_mul(Gm, dm_t(Gm)); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) G(&A, i, j) = AT(M, i, j);
        chol_check(&A, fl, lb, piv, 0, r, 1, lay);
    }
}
/* ---- triangular inverse ------------------------------------------------------------------------ */
static void trinv(void)
{
    int n = mc_range("n", 1, mc_sel(10, 14, 18)), lb = MC_PICK("lb", 0, 1, 2, 3, 4, 5, 64), lay = mc_choose("lay", 2), up = mc_choose("up", 2), unit = mc_choose("unit", 2), zero = mc_range("zero", -1, n - 1);
    if (!mc_begin()) return;
    int fl = (up ? ARMAS_UPPER : ARMAS_LOWER) | (unit ? ARMAS_UNIT : 0);
    mc_note("inverse_trm n=%d flags=0x%x lb=%d layout=%d zero diagonal at %d", n, fl, lb, lay, zero);
    gm_t A; gm_new(&A, n, n, lay); gm_rand(&A, n + 9);
    for (int i = 0; i < n; i++) { G(&A, i, i) = unit ? NAN : 1.5 + (i % 3); }
    if (zero >= 0) G(&A, zero, zero) = 0;
    hide(&A, fl); gm_snap(&A); setlb(lb);
    dm T = dm_new(n, n); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (up ? i <= j : i >= j) AT(T, i, j) = i == j && unit ? 1 : G(&A, i, j);
    int rc = armas_inverse_trm(&A.m, fl, &cf); mc_ops(1); gm_guard(&A, "A"); if (!hidden_ok(&A, fl)) return;
    if (zero >= 0 && !unit) { EXPECT("trinv-singular", rc < 0 && cf.error == ARMAS_ESINGULAR, "zero diagonal: returned %d error %d", rc, cf.error); return; }
    EXPECT("trinv-rc", rc == 0, "returned %d error %d", rc, cf.error);
    dm X = dm_new(n, n); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (up ? i <= j : i >= j) AT(X, i, j) = i == j && unit ? 1 : G(&A, i, j);
    if (unit) for (int i = 0; i < n; i++) EXPECT("trinv-unit-diagonal", mc_biteq(G(&A, i, i), S(&A, i, i)), "diagonal %d of a unit matrix written: %g", i, G(&A, i, i));
    double err = dm_dist(dm_mul(T, X), dm_eye(n));
    EXPECT("trinv", err < 1e300 && err <= 1e-10 * (1 + dm_max(X)), "|A*inv-I| = %g", err);
    mc_outcome(mc_hash(X.e, sizeof(double) * n * n, fl));
}
void mc_body(void) { switch (mc_choose("part", 3)) { case 0: lu_all(); break; case 1: chol_all(); break; case 2: trinv(); break; } }
