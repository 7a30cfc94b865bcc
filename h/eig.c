/* C17: symmetric eigenproblems: dense, tridiagonal, bisection, secular equation */
#include "mc.h"
#include "cfg.h"
#include "num.h"
#include "work.h"
#include "vecs.h"
const char *mc_name = "eig";
void mc_setup(void) {}
static armas_conf_t cf;
#define EXPECT(key, cond, ...) do { mc_cmp(1); if (!(cond)) { mc_fail(key, __VA_ARGS__); return; } } while (0)
static const double eps = DBL_EPSILON;
static void setlb(int lb) { cfg_t c = CFG_DEFAULT; c.lb = lb; cfg_set(&c); cf = *armas_conf_default(); cf.error = 0; }
static int cmpa(const void *a, const void *b) { double x = *(double *)a, y = *(double *)b; return x < y ? -1 : x > y; }
/* reference spectrum: cyclic two-sided Jacobi in long double, ascending */
static void jacobi(dm A, double *s)
{
    int n = A.r; double sc = dm_max(A); if (sc == 0) { for (int i = 0; i < n; i++) s[i] = 0; return; }
    long double *w = mc_mem(sizeof(long double) * (n * n + 1));
#define W_(i,j) w[(j) * n + (i)]
    for (int i = 0; i < n * n; i++) w[i] = A.e[i] / (long double)sc;
    for (int sweep = 0; sweep < 60; sweep++) {
        int rot = 0;
        for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
            long double a = W_(p, p), b = W_(q, q), c = W_(p, q);
            if (fabsl(c) <= 1e-25L) continue;
            rot = 1; long double z = (b - a) / (2 * c), t = (z >= 0 ? 1 : -1) / (fabsl(z) + sqrtl(1 + z * z)), cs = 1 / sqrtl(1 + t * t), sn = cs * t;
            for (int i = 0; i < n; i++) { long double x = W_(i, p), y = W_(i, q); W_(i, p) = cs * x - sn * y; W_(i, q) = sn * x + cs * y; }
            for (int i = 0; i < n; i++) { long double x = W_(p, i), y = W_(q, i); W_(p, i) = cs * x - sn * y; W_(q, i) = sn * x + cs * y; }
        }
        if (!rot) break;
    }
    for (int j = 0; j < n; j++) s[j] = (double)(W_(j, j) * sc);
    qsort(s, n, 8, cmpa);
}
static void verify(dm A, double *s, gm_t *V, double tol)
{
    int n = A.r; double sc = dm_max(A), *ref = mc_mem(sizeof(double) * (n + 1)), e; if (sc == 0) sc = 1;
    for (int i = 0; i < n; i++) EXPECT("value", isfinite(s[i]), "eigenvalue %d is %g", i, s[i]);
    for (int i = 1; i < n; i++) EXPECT("order", s[i - 1] <= s[i], "eigenvalues %d (%g) and %d (%g) not in increasing order", i - 1, s[i - 1], i, s[i]);
    jacobi(A, ref);
    for (int i = 0; i < n; i++) EXPECT("values", fabs(s[i] - ref[i]) <= tol * sc, "eigenvalue %d is %.17g, expected %.17g", i, s[i], ref[i]);
    if (V) {
        dm Q = dm_get(V), B = dm_copy(A); e = dm_orth(Q); EXPECT("orthogonal", e < 1e300 && e <= tol, "|V'V-I| = %g", e);
        for (long i = 0; i < (long)n * n; i++) B.e[i] /= sc;
        dm R = dm_mul(B, Q); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) AT(R, i, j) -= AT(Q, i, j) * (s[j] / sc);
        e = dm_max(R); EXPECT("vectors", e < 1e300 && e <= tol, "|AV - VD| = %g |A|", e);
    }
    mc_outcome(mc_hash(s, sizeof(double) * n, V != 0));
}
/* other triangle holds numbers which may not matter */
static void dense(dm A, int upper, int want, int lb, int ws, int vk, int lay)
{
    int n = A.r, rc, fl = (upper == 1 ? ARMAS_UPPER : upper == 0 ? ARMAS_LOWER : 0) | (want ? ARMAS_WANTV : 0); gm_t M, D; setlb(lb);
    gm_new(&M, n, n, lay); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) G(&M, i, j) = (upper == 1 ? i <= j : i >= j) ? AT(A, i, j) : 1e3 + i;
    gv_new(&D, n, vk); for (int i = 0; i < n; i++) V(&D, i) = 77; gm_snap(&M); gm_snap(&D); mc_case_timeout(20);
    if (ws == 0) rc = armas_eigen_sym(&D.m, &M.m, fl, &cf);
    else { armas_wbuf_t q = ARMAS_WBNULL; rc = armas_eigen_sym_w(&D.m, &M.m, fl, &q, &cf); EXPECT("query", rc == 0, "workspace query returned %d", rc); rc = armas_eigen_sym_w(&D.m, &M.m, fl, q.bytes ? work(q.bytes) : ARMAS_NOWORK, &cf); if (q.bytes) workdone(); }
    mc_ops(1); gm_guard(&M, "A"); gm_guard(&D, "D"); EXPECT("eigen-rc", rc == 0, "returned %d error %d", rc, cf.error);
    double *s = mc_mem(sizeof(double) * (n + 1)); for (int i = 0; i < n; i++) s[i] = V(&D, i);
    verify(A, s, want ? &M : 0, 60 * eps * n);
}
static dm trid(int n, const double *d, const double *e) { dm B = dm_new(n, n); for (int i = 0; i < n; i++) { AT(B, i, i) = d[i]; if (i < n - 1) AT(B, i, i + 1) = AT(B, i + 1, i) = e[i]; } return B; }
static void tridiag(int n, const double *d, const double *e, int want, int fwd, int init, int vk, int ws)
{
    gm_t D, E, Q; int rc, fl = (want ? ARMAS_WANTV : 0) | (fwd ? ARMAS_FORWARD : 0); setlb(4);
    gv_new(&D, n, vk); gv_new(&E, n - 1, vk); for (int i = 0; i < n; i++) { V(&D, i) = d[i]; if (i < n - 1) V(&E, i) = e[i]; }
    dm H = dm_eye(n); if (init) { double v[24]; double t = 0; for (int i = 0; i < n; i++) { v[i] = i % 3 + 1; t += v[i] * v[i]; } H = dm_house(n, v, 2 / t); }
    gm_new(&Q, n, n, LP); dm_put(&Q, H); gm_snap(&D); gm_snap(&E); gm_snap(&Q); mc_case_timeout(20);
    if (ws == 0) rc = armas_trdeigen(&D.m, &E.m, want ? &Q.m : 0, fl, &cf);
    else { armas_wbuf_t q = ARMAS_WBNULL; rc = armas_trdeigen_w(&D.m, &E.m, want ? &Q.m : 0, fl, &q, &cf); EXPECT("query", rc == 0, "workspace query returned %d", rc); rc = armas_trdeigen_w(&D.m, &E.m, want ? &Q.m : 0, fl, q.bytes ? work(q.bytes) : ARMAS_NOWORK, &cf); if (q.bytes) workdone(); }
    mc_ops(1); gm_guard(&D, "D"); gm_guard(&E, "E"); gm_guard(&Q, "V"); if (!want) gm_same(&Q, "V"); EXPECT("trdeigen-rc", rc == 0, "returned %d error %d", rc, cf.error);
    double *s = mc_mem(sizeof(double) * (n + 1)); for (int i = 0; i < n; i++) s[i] = V(&D, i);
    dm B = trid(n, d, e); if (want) B = dm_mul(dm_mul(H, B), dm_t(H));
    verify(B, s, want ? &Q : 0, 60 * eps * n);
}
/* selected eigenvalues.  how: 0 index range, 1 value range, 2 all, 3 null parameters; dense: through armas_eigen_sym_selected; short: result vector one too short */
static void selected(int n, const double *d, const double *e, int how, int il, int ir, double lo, double hi, double tau, int viaA, int shrt, int vk)
{
    gm_t D, E, Y, A; int rc, first, last; double *ref = mc_mem(sizeof(double) * (n + 1)); dm B = trid(n, d, e); setlb(3);
    double sc = dm_max(B); jacobi(B, ref); double tol = 60 * eps * n * sc + 1e-290; if (tau > tol) tol += tau;
    if (how == 0) { first = il; last = ir < n ? ir : n; }
    else if (how == 1) {
        first = last = 0;
        for (int i = 0; i < n; i++) { if (fabs(ref[i] - lo) < 1e-9 * sc || fabs(ref[i] - hi) < 1e-9 * sc) { if (sc != 0 && !viaA) { int dg = 1; for (int k = 0; k < n - 1; k++) dg &= e[k] == 0; if (!dg) { mc_outcome(1); return; } } else { mc_outcome(1); return; } } first += ref[i] < lo; last += ref[i] < hi; }
    } else first = 0, last = n;
    int cnt = last > first ? last - first : 0; if (shrt && cnt == 0) { mc_outcome(2); return; }
    gv_new(&D, n, vk); gv_new(&E, n - 1, vk); for (int i = 0; i < n; i++) { V(&D, i) = d[i]; if (i < n - 1) V(&E, i) = e[i]; }
    gv_new(&Y, cnt - shrt, vk); for (int i = 0; i < cnt - shrt; i++) V(&Y, i) = 77; gm_snap(&D); gm_snap(&E); gm_snap(&Y);
    armas_eigen_parameter_t p;
    if (how == 0) p = tau > 0 ? *ARMAS_EIGEN_INT_TAU(il, ir, tau) : *ARMAS_EIGEN_INT(il, ir);
    else if (how == 1) p = tau > 0 ? *ARMAS_EIGEN_VAL_TAU(lo, hi, tau) : *ARMAS_EIGEN_VAL(lo, hi);
    else p = tau > 0 ? *ARMAS_EIGEN_ALL_TAU(tau) : *ARMAS_EIGEN_ALL;
    mc_case_timeout(10);
    if (!viaA) rc = armas_trdbisect(&Y.m, &D.m, &E.m, how == 3 ? 0 : &p, &cf);
    else {      /* orthogonally similar dense matrix, lower or upper triangle */
        double v[8]; double t = 0; for (int i = 0; i < n; i++) { v[i] = i + 1; t += v[i] * v[i]; } dm H = dm_house(n, v, 2 / t), C = dm_mul(dm_mul(H, B), H); int up = viaA == 2;
        gm_new(&A, n, n, LP); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) G(&A, i, j) = (up ? i <= j : i >= j) ? AT(C, i, j) : 1e3; gm_snap(&A);
        rc = armas_eigen_sym_selected(&Y.m, &A.m, how == 3 ? 0 : &p, up ? ARMAS_UPPER : viaA == 1 ? ARMAS_LOWER : 0, &cf); gm_guard(&A, "A"); tol *= 2;
    }
    mc_ops(1); gm_guard(&Y, "Y"); gm_same(&D, "D"); gm_same(&E, "E");
    if (shrt) { EXPECT("short", rc < 0 && cf.error != 0, "result vector of %d for %d values accepted: %d, error %d", cnt - 1, cnt, rc, cf.error); return; }
    EXPECT("select-rc", rc == 0, "returned %d error %d", rc, cf.error);
    for (int i = 0; i < cnt; i++) EXPECT("selected", fabs(V(&Y, i) - ref[first + i]) <= tol, "value %d of the range is %.17g, expected eigenvalue %d %.17g", i, V(&Y, i), first + i, ref[first + i]);
    for (int i = 1; i < cnt; i++) EXPECT("order", V(&Y, i - 1) <= V(&Y, i) + tol, "not increasing");
    mc_outcome(mc_hash(&cnt, 4, first * 8 + last));
}
static void secular(int n, const double *d, const double *z0, double rho, int form, int vk)
{
    gm_t D, Z, Y, X, Q, P; int rc; double z[8], t = 0, *ref = mc_mem(sizeof(double) * (n + 1)); setlb(4);
    for (int i = 0; i < n; i++) t += z0[i] * z0[i];
    for (int i = 0; i < n; i++) z[i] = z0[i] / sqrt(t);
    gv_new(&D, n, vk); gv_new(&Z, n, vk); gv_new(&Y, n, vk); gv_new(&X, n, vk); gm_new(&Q, n, n, LP); gm_new(&P, n, n, LP);
    for (int i = 0; i < n; i++) { V(&D, i) = d[i]; V(&Z, i) = z[i]; V(&Y, i) = V(&X, i) = NAN; } for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) G(&Q, i, j) = G(&P, i, j) = NAN;
    gm_snap(&D); gm_snap(&Z); gm_snap(&Y); gm_snap(&X); gm_snap(&Q); gm_snap(&P); mc_case_timeout(10);
    dm M = dm_new(n, n); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) AT(M, i, j) = (i == j ? d[i] : 0) + rho * z[i] * z[j];
    jacobi(M, ref); double sc = fabs(rho); for (int i = 0; i < n; i++) if (fabs(d[i]) > sc) sc = fabs(d[i]);
    if (form == 0) rc = armas_trdsec_solve(&Y.m, &D.m, &Z.m, &X.m, rho, &cf); else rc = armas_trdsec_solve_vec(&Y.m, &X.m, &P.m, &D.m, &Z.m, rho, &cf);
    mc_ops(1); gm_same(&D, "d"); gm_same(&Z, "z"); gm_guard(&Y, "y"); gm_guard(&X, "delta/v"); gm_guard(&P, "Qd");
    EXPECT("secular-rc", rc == 0, "returned %d error %d", rc, cf.error);
    for (int i = 0; i < n; i++) {
        EXPECT("roots", fabs(V(&Y, i) - ref[i]) <= 60 * eps * n * sc, "root %d is %.17g, expected %.17g", i, V(&Y, i), ref[i]);
        EXPECT("interlace", V(&Y, i) >= d[i] && V(&Y, i) <= (i < n - 1 ? d[i + 1] : d[i] + rho * (1 + 4 * eps) + 4 * eps * fabs(d[i])), "root %d (%.17g) outside of its interval", i, V(&Y, i));
    }
    if (form == 0) { for (int k = 0; k < n; k++) EXPECT("delta", fabs(V(&X, k) - (d[k] - V(&Y, n - 1))) <= 60 * eps * n * sc, "delta %d is %g", k, V(&X, k)); mc_outcome(3); return; }
    for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) EXPECT("deltas", fabs(G(&P, i, k) - (d[k] - V(&Y, i))) <= 60 * eps * n * sc, "delta (%d,%d) is %g, expected %g", i, k, G(&P, i, k), d[k] - V(&Y, i));
    for (int i = 0; i < n; i++) EXPECT("update", fabs(V(&X, i) - fabs(z[i])) <= 1e-6, "updated vector element %d is %g, expected magnitude %g", i, V(&X, i), fabs(z[i]));
    for (int i = 0; i < n; i++) if (z[i] < 0) V(&X, i) = -V(&X, i);
    if (form == 1) { for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) G(&Q, i, j) = G(&P, i, j); rc = armas_trdsec_eigen(&Q.m, &X.m, &Q.m, &cf); }
    else if (form == 2) { for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) G(&Q, i, j) = G(&P, i, j); rc = armas_trdsec_eigen(&Q.m, &X.m, 0, &cf); }
    else { gm_snap(&P); rc = armas_trdsec_eigen(&Q.m, &X.m, &P.m, &cf); gm_same(&P, "Qd"); }
    mc_ops(1); gm_guard(&Q, "Q"); EXPECT("secvec-rc", rc == 0, "armas_trdsec_eigen returned %d error %d", rc, cf.error);
    double *s = mc_mem(sizeof(double) * (n + 1)); for (int i = 0; i < n; i++) s[i] = V(&Y, i);
    verify(M, s, &Q, 1e-11);
}
void mc_body(void)
{
    int f = mc_choose("family", 6), n; double d[24], e[24];
    if (f == 0) {
        int c[10], k = 0, up, want, ws; n = mc_range("n", 1, 4); up = mc_choose("uplo", n == 4 && !mc_thorough ? 2 : 3); want = n == 4 && !mc_thorough ? 1 : mc_choose("want", 2); ws = n == 4 ? 0 : mc_choose("ws", 2);
        for (int i = 0; i < n * (n + 1) / 2; i++) c[i] = mc_range("a", n > 3 && !mc_thorough && (i % 3) ? 0 : n == 3 || n < 3 ? -2 : -1, 1);
        if (!mc_begin()) return;
        mc_note("eigen_sym n=%d uplo=%d want=%d ws=%d small alphabet", n, up, want, ws);
        dm A = dm_new(n, n); for (int j = 0; j < n; j++) for (int i = j; i < n; i++) AT(A, i, j) = AT(A, j, i) = c[k++];
        dense(A, up, want, 2, ws, VC, LP);
    } else if (f == 1 || f == 2) {
        int pat = mc_choose("pat", NPAT), up = mc_choose("uplo", 3), want = mc_choose("want", 2), ws = mc_choose("ws", 2), lb = f == 1 ? MC_PICK("lb", 0, 2, 3) : 8, vk = f == 1 ? mc_choose("layout", 3) : VC; n = f == 1 ? mc_range("n", 1, mc_sel(9, 12, 16)) : MC_PICK("n", 12, 25, 40, 70);
        if (f == 2 && !(pat == P_RAND || pat == P_DUP || pat == P_RANK1)) return;
        if (!mc_begin()) return;
        mc_note("eigen_sym n=%d pattern=%s uplo=%d want=%d lb=%d ws=%d layout=%d", n, pat_name[pat], up, want, lb, ws, vk);
        gm_t A; gm_new(&A, n, n, LT); pat_fill(&A, pat, n * 31 + 5); dm B = dm_get(&A); for (int j = 0; j < n; j++) for (int i = 0; i < j; i++) AT(B, i, j) = AT(B, j, i);
        dense(B, up, want, lb, ws, vk, vk ? LP : LT);
    } else if (f == 3) {
        static const double AL[] = {0, 1, -2, 1e-160, 3, 1e150, -1e-9}; int N;
        n = mc_range("n", 1, 5); int want = n > 3 ? 1 : mc_choose("want", 2), fwd = mc_choose("forward", 2), init = n > 3 ? 1 : mc_choose("init", 2), vk = n > 3 ? VC : mc_choose("layout", 3), ws = n < 4 ? mc_choose("ws", 2) : 0; N = n > 4 ? 2 : n > 3 ? mc_sel(3, 4, 5) : n > 2 ? 4 : 7;
        for (int i = 0; i < n; i++) { d[i] = AL[mc_choose("d", n > 4 && mc_thorough ? 3 : N)]; if (i < n - 1) e[i] = AL[mc_choose("e", N)]; }
        if (!mc_begin()) return;
        mc_note("trdeigen n=%d want=%d forward=%d init=%d layout=%d ws=%d D=%g %g %g %g E=%g %g %g", n, want, fwd, init, vk, ws, d[0], n > 1 ? d[1] : 0, n > 2 ? d[2] : 0, n > 3 ? d[3] : 0, n > 1 ? e[0] : 0, n > 2 ? e[1] : 0, n > 3 ? e[2] : 0);
        tridiag(n, d, e, want, fwd, init, vk, ws);
    } else if (f == 4) {
        static const double AL[] = {0, 1, -2, 0.5}; static const double EP[] = {-1e9, -2.7, -1, -0.3, 0, 0.4, 1, 1.9, 1e9};
        n = mc_range("n", 1, 4); int how = mc_choose("how", 4), il = 0, ir = 0, N = n > 3 ? (mc_thorough ? 4 : 3) : 4; double lo = 0, hi = 0;
        if (how == 0) { il = mc_range("il", 0, n); ir = mc_range("ir", il, n + 1); if (il == 0 && ir == 0) return; }
        if (how == 1) { int a = mc_choose("lo", ITEM(EP)), b = mc_choose("hi", ITEM(EP)); if (b < a) return; lo = EP[a]; hi = EP[b]; }
        double tau = how == 3 ? 0 : MC_PICKD("tau", 0, 1e-6); int via = tau > 0 ? 0 : mc_choose("via", 4), sh = tau > 0 ? 0 : mc_choose("short", 2), vk = via || n > 2 ? VR : mc_choose("layout", 3);
        if (n == 4 && (via > 1 || (sh && il))) return;
        for (int i = 0; i < n; i++) { d[i] = AL[mc_choose("d", n > 3 && !mc_thorough ? 2 : N)]; if (i < n - 1) e[i] = AL[mc_choose("e", N)]; }
        if (!mc_begin()) return;
        mc_note("%s n=%d how=%d [%d,%d) [%g,%g) tau=%g short=%d layout=%d D=%g %g %g %g E=%g %g %g", via ? "eigen_sym_selected" : "trdbisect", n, how, il, ir, lo, hi, tau, sh, vk, d[0], n > 1 ? d[1] : 0, n > 2 ? d[2] : 0, n > 3 ? d[3] : 0, n > 1 ? e[0] : 0, n > 2 ? e[1] : 0, n > 3 ? e[2] : 0);
        selected(n, d, e, how, il, ir, lo, hi, tau, via, sh, vk);
    } else {
        static const double GAP[] = {1, 1e-3, 1e-7, 4}, ZA[] = {1, -0.5, 1e-3, 3};
        n = mc_range("n", 1, 5); double rho = MC_PICKD("rho", 1, 1e-4, 50); int form = mc_choose("form", 4), vk = n < 4 ? mc_choose("layout", 3) : VR, x = MC_PICK("d0", 0, -1, 1);
        if (n == 5 && (form == 0 || form == 2) && !mc_thorough) return;
        d[0] = x;
        for (int i = 0; i < n; i++) { if (i) d[i] = d[i - 1] + GAP[mc_choose("gap", n > 4 && !mc_thorough ? 2 : n > 3 ? 3 : 4)]; e[i] = ZA[mc_choose("z", n > 4 ? 2 : n > 3 ? 3 : 4)]; }
        if (!mc_begin()) return;
        mc_note("secular n=%d rho=%g form=%d layout=%d d=%g %g %g %g z=%g %g %g %g", n, rho, form, vk, d[0], n > 1 ? d[1] : 0, n > 2 ? d[2] : 0, n > 3 ? d[3] : 0, e[0], n > 1 ? e[1] : 0, n > 2 ? e[2] : 0, n > 3 ? e[3] : 0);
        secular(n, d, e, rho, form, vk);
    }
}
