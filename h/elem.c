/* C29: Householder, hyperbolic and Givens transformations, butterfly and diagonal products, quadratic roots */
#include "mc.h"
#include "cfg.h"
#include "num.h"
#include "work.h"
#include "vecs.h"
const char *mc_name = "elem";
static armas_conf_t cf;
void mc_setup(void) {}
#define EXPECT(key, cond, ...) do { mc_cmp(1); if (!(cond)) { mc_fail(key, __VA_ARGS__); return; } } while (0)
static const double eps = DBL_EPSILON;
static void conf(void) { cfg_t c = CFG_DEFAULT; cfg_set(&c); cf = *armas_conf_default(); cf.error = 0; }
static int finite_all(dm a) { for (long i = 0; i < (long)a.r * a.c; i++) if (!isfinite(a.e[i])) return 0; return 1; }

/* explicit reflector of order n from v (v0 given) : I - tau v v' */
static void house(void)
{
    static const double AL[] = {0, 1, -2, 1e-160, -3e150, 5e-300, 0.5};
    int n = mc_range("n", 1, mc_thorough ? 5 : 4), fl = MC_PICK("flags", 0, ARMAS_UNIT, ARMAS_NONNEG, ARMAS_UNIT | ARMAS_NONNEG), kind = mc_choose("layout", 3), na = n > 3 ? 5 : 7; double x[8];
    for (int i = 0; i < n; i++) x[i] = AL[mc_choose("x", na)];
    if (!mc_begin()) return;
    mc_note("house n=%d flags=0x%x layout=%s x=%g %g %g %g", n, fl, vkname[kind], x[0], n > 1 ? x[1] : 0, n > 2 ? x[2] : 0, n > 3 ? x[3] : 0);
    conf();
    gm_t a11, xv, tau; gm_new(&a11, 1, 1, LT); gv_new(&xv, n - 1, kind); gm_new(&tau, 1, 1, LT);
    G(&a11, 0, 0) = x[0]; for (int i = 1; i < n; i++) V(&xv, i - 1) = x[i];
    gm_snap(&a11); gm_snap(&xv); gm_snap(&tau);
    int rc = armas_house(&a11.m, &xv.m, &tau.m, fl, &cf); mc_ops(1);
    gm_guard(&a11, "a11"); gm_guard(&xv, "x"); gm_guard(&tau, "tau");
    EXPECT("rc", rc == 0, "returned %d", rc);
    double v[8], t, beta, mx = 0; int unit = !!(fl & ARMAS_UNIT);
    v[0] = unit ? 1 : G(&a11, 0, 0); t = unit ? G(&tau, 0, 0) : 2; beta = unit ? G(&a11, 0, 0) : G(&tau, 0, 0);
    for (int i = 1; i < n; i++) v[i] = V(&xv, i - 1);
    for (int i = 0; i < n; i++) if (fabs(x[i]) > mx) mx = fabs(x[i]);
    dm H = dm_house(n, v, t), X = dm_new(n, 1), Y; for (int i = 0; i < n; i++) AT(X, i, 0) = mx ? x[i] / mx : 0;
    EXPECT("finite", finite_all(H) && isfinite(beta), "not finite: beta %g tau %g v %g %g", beta, t, v[0], n > 1 ? v[1] : 0);
    double e = dm_orth(H); EXPECT("orthogonal", e <= 40 * eps, "|HH'-I| = %g", e);
    Y = dm_mul(H, X); if (mx) AT(Y, 0, 0) -= beta / mx; else AT(Y, 0, 0) = beta;
    e = dm_max(Y); EXPECT("maps", e < 1e300 && e <= 40 * eps, "Hx differs from beta e0 by %g |x| (beta %g, Hx0 %g)", e, beta, AT(Y, 0, 0) + beta / mx);
    EXPECT("nonneg", !(fl & ARMAS_NONNEG) || beta >= 0, "beta %g is negative", beta);
    mc_outcome(mc_hash(H.e, sizeof(double) * n * n, 0));
}
/* apply one reflector */
static void apply(void)
{
    int n = mc_range("n", 1, 5), p = mc_range("p", 1, 4), scaled = mc_choose("scaled", 2), side = mc_choose("side", 3), form = mc_choose("form", 2), vk = mc_choose("vl", 3), lay = mc_choose("lay", 2), z = mc_choose("tau0", 2);
    if ((form && !scaled) || (form && side == 2) || (z && !scaled)) { if (mc_begin()) mc_note("not applicable"); return; }
    if (!mc_begin()) return;
    int right = side == 1, fl = side == 0 ? ARMAS_LEFT : side == 1 ? ARMAS_RIGHT : 0; conf(); if (scaled) fl |= vk == 0 ? ARMAS_UNIT : 0;
    mc_note("houseapply n=%d p=%d scaled=%d side=%d form=%d v=%s lay=%d tau0=%d", n, p, scaled, side, form, vkname[vk], lay, z);
    gm_t A, v, tau, w; gm_new(&A, right ? p : n, right ? n : p, lay); gm_rand(&A, n * 7 + p); gm_snap(&A);
    gv_new(&v, n - scaled, vk); gm_rand(&v, n + 3); gm_snap(&v); gm_new(&tau, 1, 1, LT); G(&tau, 0, 0) = z ? 0 : 1.25; gm_snap(&tau);
    gm_new(&w, p, 1, LT); gm_snap(&w);
    double vv[8]; for (int i = 0; i < n; i++) vv[i] = scaled ? i ? V(&v, i - 1) : 1 : V(&v, i);
    dm H = dm_house(n, vv, scaled ? G(&tau, 0, 0) : 2), A0 = dm_get(&A); int rc, vec = A.m.rows == 1 || A.m.cols == 1;
    if (vec && !form && n == 1 && p > 1) { mc_note("a vector operand whose length is not the order of H"); return; }   /* a vector is always the full operand */
    if (form) {
        armas_dense_t a1, A2;
        if (right) armas_submatrix(&a1, &A.m, 0, 0, p, 1), armas_submatrix(&A2, &A.m, 0, 1, p, n - 1); else armas_submatrix(&a1, &A.m, 0, 0, 1, p), armas_submatrix(&A2, &A.m, 1, 0, n - 1, p);
        rc = armas_houseapply2x1(&a1, &A2, &tau.m, &v.m, &w.m, fl, &cf);
    } else rc = armas_houseapply(&A.m, scaled ? &tau.m : 0, &v.m, vec ? 0 : &w.m, fl, &cf);
    mc_ops(1); gm_guard(&A, "A"); gm_same(&v, "v"); gm_same(&tau, "tau"); gm_guard(&w, "w");
    EXPECT("rc", rc == 0, "returned %d error %d", rc, cf.error);
    dm R = right ? dm_mul(A0, H) : dm_mul(H, A0);
    double e = dm_dist(R, dm_get(&A)); EXPECT("apply", e < 1e300 && e <= 60 * eps, "differs from the explicit product by %g", e);
    mc_outcome(mc_hash(R.e, sizeof(double) * R.r * R.c, 1));
}
static void mult(void)
{
    int n = mc_range("n", 1, mc_sel(5, 7, 8)), k = mc_range("k", 1, n), p = mc_range("p", 1, 3), side = mc_choose("side", 3), tr = mc_choose("trans", 2), unit = mc_choose("unit", 2), ws = mc_choose("ws", 2), lay = mc_choose("lay", 2);
    if (!mc_begin()) return;
    int right = side == 1, fl = (side == 0 ? ARMAS_LEFT : side == 1 ? ARMAS_RIGHT : 0) | (tr ? ARMAS_TRANS : 0) | (unit ? ARMAS_UNIT : 0), rc = 0; conf();
    mc_note("housemult n=%d k=%d p=%d side=%d trans=%d unit=%d ws=%d lay=%d", n, k, p, side, tr, unit, ws, lay);
    gm_t Q, X, tau; gm_new(&Q, n, k, lay); gm_rand(&Q, n * 3 + k); gm_new(&tau, k, 1, LT); gm_new(&X, right ? p : n, right ? n : p, lay); gm_rand(&X, n + p + k);
    dm P = dm_eye(n);
    for (int j = 0; j < k; j++) {
        double vv[8] = {0}; for (int i = j + unit; i < n; i++) vv[i] = G(&Q, i, j);
        if (unit) vv[j] = 1; G(&tau, j, 0) = 0.75 + j; P = dm_mul(P, dm_house(n, vv, unit ? G(&tau, j, 0) : 2));
    }
    gm_snap(&Q); gm_snap(&X); gm_snap(&tau); dm X0 = dm_get(&X), Pt;
    /* transposed means in the opposite order: each H is symmetric */
    Pt = tr ? dm_t(P) : P; int vec = X.m.rows == 1 || X.m.cols == 1; armas_dense_t *tp = unit ? &tau.m : 0;
    if (vec && ((right && n == 1 && p > 1) || (!right && n == 1 && p > 1))) { mc_note("vector operand"); }
    if (ws == 0 || vec) rc = armas_housemult(&X.m, tp, &Q.m, fl, &cf);
    else {
        armas_wbuf_t q = ARMAS_WBNULL; rc = armas_housemult_w(&X.m, tp, &Q.m, fl, &q, &cf); EXPECT("query", rc == 0 && q.bytes > 0, "query returned %d, %zu bytes", rc, q.bytes);
        rc = armas_housemult_w(&X.m, tp, &Q.m, fl, work(q.bytes), &cf); workdone();
    }
    mc_ops(1); gm_guard(&X, "X"); gm_same(&Q, "Q"); gm_same(&tau, "tau");
    EXPECT("rc", rc == 0, "returned %d error %d", rc, cf.error);
    dm R = right ? dm_mul(X0, Pt) : dm_mul(Pt, X0); double sc = dm_max(R) + 1, e = dm_dist(R, dm_get(&X));
    EXPECT("housemult", e < 1e300 && e <= 200 * eps * sc * n, "differs from the explicit product by %g", e);
    mc_outcome(mc_hash(R.e, sizeof(double) * R.r * R.c, 2));
}
static void hyper(void)
{
    static const double AL[] = {5, -5, 0, 3, 1e-160, -4, 1e150, -7e-161}; static const double BE[] = {0, 1, -2, 3e-161, 2.5e149, 4};
    int n = mc_range("n", 1, mc_thorough ? 4 : 3), fl = MC_PICK("flags", 0, ARMAS_NONNEG, ARMAS_HHNEGATIVE, ARMAS_HHNEGATIVE | ARMAS_NONNEG), vk = mc_choose("vl", 3), side = mc_choose("side", 2), p = MC_PICK("p", 1, 3); double x[6], nx = 0;
    x[0] = AL[mc_choose("a", 8)]; for (int i = 1; i < n; i++) x[i] = BE[mc_choose("x", 6)];
    if (!mc_begin()) return;
    mc_note("hhouse n=%d flags=0x%x v=%s side=%d p=%d x=%g %g %g", n, fl, vkname[vk], side, p, x[0], n > 1 ? x[1] : 0, n > 2 ? x[2] : 0);
    for (int i = 1; i < n; i++) nx = hypot(nx, x[i]);
    conf(); gm_t a11, xv, tau; gm_new(&a11, 1, 1, LT); gv_new(&xv, n - 1, vk); gm_new(&tau, 1, 1, LT);
    G(&a11, 0, 0) = x[0]; for (int i = 1; i < n; i++) V(&xv, i - 1) = x[i];
    gm_snap(&a11); gm_snap(&xv); gm_snap(&tau);
    int rc = armas_hhouse(&a11.m, &xv.m, &tau.m, fl, &cf); mc_ops(1);
    gm_guard(&a11, "a11"); gm_guard(&xv, "x"); gm_guard(&tau, "tau");
    if (nx > 0 && fabs(x[0]) <= nx * (1 - 1e-14)) {
        EXPECT("no-reflector", rc != 0 && cf.error == ARMAS_EINVAL, "|alpha| %g < norm %g accepted, rc %d error %d", fabs(x[0]), nx, rc, cf.error);
        EXPECT("no-reflector-unchanged", gm_same(&a11, "a11") && gm_same(&xv, "x"), "operands written"); mc_outcome(1); return;
    }
    if (nx > 0 && fabs(x[0]) <= nx * (1 + 1e-14)) { mc_note("boundary"); EXPECT("boundary", rc == 0 || cf.error == ARMAS_EINVAL, "rc %d", rc); return; }
    EXPECT("rc", rc == 0, "returned %d error %d", rc, cf.error);
    double t = G(&tau, 0, 0), beta = G(&a11, 0, 0), v[6], mx = fabs(x[0]) > 0 ? fabs(x[0]) : 1; v[0] = 1; for (int i = 1; i < n; i++) v[i] = V(&xv, i - 1);
    dm H = dm_eye(n), J = dm_eye(n), X = dm_new(n, 1); for (int i = 1; i < n; i++) AT(J, i, i) = -1;
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) AT(H, i, j) -= t * (i ? -v[i] : v[i]) * v[j];
    for (int i = 0; i < n; i++) AT(X, i, 0) = x[i] / mx;
    EXPECT("finite", finite_all(H) && isfinite(beta), "not finite: beta %g tau %g", beta, t);
    double hs = dm_max(H), tol = 200 * eps * hs * hs * n, e;
    e = dm_dist(dm_mul(dm_mul(H, J), dm_t(H)), J); EXPECT("J-orthogonal", e <= tol, "|HJH'-J| = %g, |H| = %g", e, hs);
    dm Y = dm_mul(H, X); AT(Y, 0, 0) -= (fl & ARMAS_HHNEGATIVE ? -beta : beta) / mx;
    e = dm_max(Y); EXPECT("maps", e < 1e300 && e <= tol, "Hx differs from beta e0 by %g (beta %g)", e, beta);
    EXPECT("nonneg", !(fl & ARMAS_NONNEG) || beta >= 0, "beta %g is negative", beta);
    gm_t A, w; gm_new(&A, side ? p : n, side ? n : p, vk == 1 ? LP : LT); gm_rand(&A, 5 * n + p); gm_snap(&A); gm_new(&w, p, 1, LT); gm_snap(&w); dm A0 = dm_get(&A); armas_dense_t a1, A2;
    if (side) armas_submatrix(&a1, &A.m, 0, 0, p, 1), armas_submatrix(&A2, &A.m, 0, 1, p, n - 1); else armas_submatrix(&a1, &A.m, 0, 0, 1, p), armas_submatrix(&A2, &A.m, 1, 0, n - 1, p);
    gm_snap(&xv); gm_snap(&tau);
    rc = armas_hhouse_apply(&tau.m, &xv.m, &a1, &A2, &w.m, side ? ARMAS_RIGHT : ARMAS_LEFT, &cf); mc_ops(1);
    gm_guard(&A, "A"); gm_same(&xv, "v"); gm_same(&tau, "tau"); gm_guard(&w, "w");
    EXPECT("apply-rc", rc == 0, "returned %d", rc);
    e = dm_dist(side ? dm_mul(A0, dm_t(H)) : dm_mul(H, A0), dm_get(&A)); EXPECT("apply", e < 1e300 && e <= tol, "differs from the explicit product by %g", e);
    mc_outcome(mc_hash(H.e, sizeof(double) * n * n, 3));
}
static void givens(void)
{
    static const double AL[] = {0, 1, -1, 3, -4, 1e-160, -1e-161, 1e155, -2e155, 4e-300, 1e300, 5e-17};
    double a = AL[mc_choose("a", 12)], b = AL[mc_choose("b", 12)], c, s, r;
    if (!mc_begin()) return;
    mc_note("gvcompute %g %g", a, b); armas_gvcompute(&c, &s, &r, a, b); mc_ops(1);
    double mx = fabs(a) > fabs(b) ? fabs(a) : fabs(b); if (mx == 0) mx = 1;
    EXPECT("finite", isfinite(c) && isfinite(s) && isfinite(r), "c %g s %g r %g", c, s, r);
    EXPECT("unit", fabs(c * c + s * s - 1) <= 8 * eps, "c^2+s^2-1 = %g", c * c + s * s - 1);
    EXPECT("maps", fabs(c * (a / mx) + s * (b / mx) - r / mx) <= 8 * eps && fabs(c * (b / mx) - s * (a / mx)) <= 8 * eps, "c %g s %g r %g does not annihilate", c, s, r);
    double v0, v1; armas_gvrotate(&v0, &v1, c, s, 3, -2); mc_ops(1);
    EXPECT("rotate", fabs(v0 - (3 * c - 2 * s)) <= 8 * eps && fabs(v1 - (-2 * c - 3 * s)) <= 8 * eps, "rotated pair %g %g", v0, v1);
    mc_outcome(mc_hash(&c, 8, 4) ^ mc_hash(&s, 8, 5));
}
static void rot2(void)
{
    int side = mc_choose("side", 2), m = mc_range("m", 1, 4), n = mc_range("n", 1, 4), N = side ? n : m, O = side ? m : n, i1 = mc_choose("i1", N), i2 = mc_choose("i2", N), o = mc_range("off", 0, O), cnt = mc_range("cnt", 0, O + 1), lay = mc_choose("lay", 2);
    if (!mc_begin()) return;
    mc_note("%s %dx%d (%d,%d) from %d count %d", side ? "gvright" : "gvleft", m, n, i1, i2, o, cnt); conf();
    gm_t A; gm_new(&A, m, n, lay); gm_ints(&A, m * 5 + n, -9, 9); gm_snap(&A); dm R = dm_get(&A); double c = 2, s = -3;
    if (side) armas_gvright(&A.m, c, s, i1, i2, o, cnt); else armas_gvleft(&A.m, c, s, i1, i2, o, cnt);
    mc_ops(1); gm_guard(&A, "A");
    for (int k = o; k < O && k < o + cnt; k++) {
        double *x = side ? &AT(R, k, i1) : &AT(R, i1, k), *y = side ? &AT(R, k, i2) : &AT(R, i2, k), t = c * *x + s * *y;
        if (i1 == i2) *x *= c; else { *y = c * *y - s * *x; *x = t; }
    }
    EXPECT("rotation", dm_dist(R, dm_get(&A)) == 0, "differs from the explicit rotation"); mc_outcome(mc_hash(R.e, sizeof(double) * m * n, 5));
}
static void update(void)
{
    int right = mc_choose("side", 2), m = mc_range("m", 1, 5), n = mc_range("n", 1, 4), N = right ? n : m, start = mc_range("start", 0, N), nrot = mc_range("nrot", 0, N + 1), back = mc_choose("back", 2), lay = mc_choose("lay", 2), vk = mc_choose("vl", 3);
    if (!mc_begin()) return;
    mc_note("gvupdate %dx%d right=%d start=%d nrot=%d back=%d", m, n, right, start, nrot, back); conf();
    gm_t A, C, Z; gm_new(&A, m, n, lay); gm_ints(&A, m * 5 + n, -9, 9); gm_snap(&A); gv_new(&C, nrot > 0 ? nrot : 1, vk); gv_new(&Z, nrot > 0 ? nrot : 1, vk);
    for (int i = 0; i < nrot; i++) { V(&C, i) = i == 1 ? 1 : i - 1; V(&Z, i) = i == 1 ? 0 : 2 - i; }
    gm_snap(&C); gm_snap(&Z); dm R = dm_get(&A); int cnt = nrot < N - 1 - start ? nrot : N - 1 - start; if (cnt < 0) cnt = 0;
    int rc = armas_gvupdate(&A.m, start, &C.m, &Z.m, nrot, (right ? ARMAS_RIGHT : ARMAS_LEFT) | (back ? ARMAS_BACKWARD : ARMAS_FORWARD)); mc_ops(1);
    gm_guard(&A, "A"); gm_same(&C, "C"); gm_same(&Z, "S");
    for (int q = 0; q < cnt; q++) {
        int k = back ? cnt - 1 - q : q; double c = V(&C, k), s = V(&Z, k);
        for (int o = 0; o < (right ? m : n); o++) { double *x = right ? &AT(R, o, start + k) : &AT(R, start + k, o), *y = right ? &AT(R, o, start + k + 1) : &AT(R, start + k + 1, o), t = c * *x + s * *y; *y = c * *y - s * *x; *x = t; }
    }
    EXPECT("count", rc == cnt, "returned %d, %d rotations fit", rc, cnt);
    EXPECT("gvupdate", dm_dist(R, dm_get(&A)) == 0, "differs from the explicit rotations"); mc_outcome(mc_hash(R.e, sizeof(double) * m * n, 6));
}
static void rotvec(void)
{
    int n = mc_range("n", 1, 6), ka = mc_choose("xl", NVK), kb = mc_choose("yl", NVK), q = mc_choose("rot", 3);
    if (!mc_begin()) return;
    mc_note("gvrot_vec n=%d %s %s", n, vkname[ka], vkname[kb]); gm_t x, y; gv_new(&x, n, ka); gv_new(&y, n, kb); gm_ints(&x, n, -9, 9); gm_ints(&y, n + 1, -9, 9); gm_snap(&x); gm_snap(&y);
    double c = q == 0 ? 1 : q == 1 ? 0 : 3, s = q == 0 ? 0 : q == 1 ? -1 : 2; int rc = armas_gvrot_vec(&x.m, &y.m, c, s); mc_ops(1); gm_guard(&x, "x"); gm_guard(&y, "y");
    EXPECT("rc", rc == 0, "returned %d", rc);
    for (int i = 0; i < n; i++) EXPECT("gvrot_vec", V(&x, i) == c * VS(&x, i) + s * VS(&y, i) && V(&y, i) == c * VS(&y, i) - s * VS(&x, i), "element %d is %g %g", i, V(&x, i), V(&y, i));
    mc_outcome(n * 10 + q);
}
/* butterfly of order Nd restricted to the leading n rows and columns; column lev of R, sub-blocks of order sz */
static dm bfly(gm_t *R, int lev, int n, int sz)
{
    dm B = dm_new(n, n); int h = sz / 2;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        if (i / sz != j / sz) continue;
        int li = i % sz, lj = j % sz;
        if (li % h != lj % h) continue;
        AT(B, i, j) = (li >= h && lj >= h ? -1 : 1) * G(R, j, lev) * sqrt(0.5);
    }
    return B;
}
static void rbt(void)
{
    int n = mc_range("n", 1, mc_sel(13, 20, 32)), d = mc_range("depth", 0, 4), op = mc_choose("op", 6), p = MC_PICK("p", 1, 3), lay = mc_choose("lay", 2);
    if (op == 5 && d == 0) { if (mc_begin()) mc_note("depth 0"); return; }
    if (!mc_begin()) return;
    conf(); mc_note("rbt n=%d depth=%d op=%d p=%d", n, d, op, p);
    int right = op == 2 || op == 3, tr = op & 1, tw = 1 << d, Nd = (n + tw - 1) & ~(tw - 1), fl = (op == 4 ? 0 : right ? ARMAS_RIGHT : ARMAS_LEFT) | (tr ? ARMAS_TRANS : 0);
    gm_t U, W, A; gm_new(&U, n, d, lay); gm_new(&W, n, d, lay); gm_rand(&U, n + d); gm_rand(&W, n * d + 1); gm_snap(&U); gm_snap(&W);
    if (op == 5) p = n;
    gm_new(&A, right ? p : n, right ? n : p, lay); gm_rand(&A, n); gm_snap(&A); dm A0 = dm_get(&A), X = dm_eye(n), Y = dm_eye(n), R; int rc;
    /* U = B<n/k> .. B<n/2> B<n>, column d-1 holds the largest butterfly */
    for (int l = 0; l < d; l++) { X = dm_mul(X, bfly(&U, l, n, Nd >> (d - 1 - l))); Y = dm_mul(Y, bfly(&W, l, n, Nd >> (d - 1 - l))); }
    if (op == 5) { rc = armas_update2_rbt(&A.m, &U.m, &W.m, &cf); R = dm_mul(dm_mul(dm_t(X), A0), Y); }
    else { rc = armas_mult_rbt(&A.m, &U.m, fl, &cf); if (tr) X = dm_t(X); R = right ? dm_mul(A0, X) : dm_mul(X, A0); }
    mc_ops(1); gm_guard(&A, "A"); gm_same(&U, "U"); gm_same(&W, "V");
    EXPECT("rc", rc == 0, "returned %d error %d", rc, cf.error);
    double e = dm_dist(R, dm_get(&A)); EXPECT("butterfly", e < 1e300 && e <= 100 * eps * (d + 1), "differs from the explicit product by %g", e);
    mc_outcome(mc_hash(R.e, sizeof(double) * R.r * R.c, 7));
}
static void diag(void)
{
    int m = mc_range("m", 0, 4), n = mc_range("n", 1, 4), right = mc_choose("side", 2), solve = mc_choose("solve", 2), dk = mc_choose("D", 5), lay = mc_choose("lay", 2), al = MC_PICK("alpha", 1, 0, -2), D = right ? n : m;
    if (!mc_begin()) return;
    if (m == 0 || ((m == 1 || n == 1) && D != m * n)) { mc_note("vector operand of other length"); return; }
    conf(); mc_note("%s_diag %dx%d right=%d D=%d alpha=%d", solve ? "solve" : "mult", m, n, right, dk, al);
    gm_t A, d; gm_new(&A, m, n, lay); gm_ints(&A, m + n, -8, 8); gm_snap(&A); dm A0 = dm_get(&A), X = dm_get(&A);
    if (dk == 4) gm_new(&d, D, D, lay); else gv_new(&d, D, dk);
    for (int i = 0; i < D; i++) { double v = (i & 1 ? -1 : 1) * (1 << (i & 3)); if (dk == 4) G(&d, i, i) = v; else V(&d, i) = v; }
    gm_snap(&d);
    int rc = solve ? armas_solve_diag(&A.m, al, &d.m, right ? ARMAS_RIGHT : ARMAS_LEFT, &cf) : armas_mult_diag(&A.m, al, &d.m, right ? ARMAS_RIGHT : ARMAS_LEFT, &cf);
    mc_ops(1); gm_guard(&A, "A"); gm_same(&d, "D"); EXPECT("rc", rc == 0, "returned %d error %d", rc, cf.error);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { int k = right ? j : i; double v = (k & 1 ? -1 : 1) * (1 << (k & 3)); AT(X, i, j) = solve ? al * AT(A0, i, j) / v : al * AT(A0, i, j) * v; }
    EXPECT("diag", dm_dist(X, dm_get(&A)) == 0, "differs from the explicit product"); mc_outcome(mc_hash(X.e, sizeof(double) * m * n, 8));
}
static void quad(void)
{
    static const double AL[] = {1, 2, -1, 94906267.375, 1e-3, 94906265.625}; static const double BL[] = {0, 1, -1, 3, -3, 2, 94906266.375, -94906266.375, 1e8}; static const double CL[] = {0, 1, -1, 4, 9, 94906268.375, -94906266.375, 1e-8, 94906267.125};
    double a = AL[mc_choose("a", 6)], b = BL[mc_choose("b", 9)], c = CL[mc_choose("c", 9)], x1, x2, d;
    if (!mc_begin()) return;
    mc_note("quadratic %.3f x^2 - 2*%.3f x + %.3f", a, b, c);
    __float128 D = (__float128)b * b - (__float128)a * c; armas_discriminant(&d, a, b, c); mc_ops(1);
    __float128 er = D - d; if (er < 0) er = -er; __float128 ad = D < 0 ? -D : D;
    EXPECT("discriminant", er <= 4 * eps * ad, "discriminant %.17g, exact %.17g", d, (double)D);
    int rc = armas_qdroots(&x1, &x2, a, b, c); mc_ops(1); long double q = sqrtl((long double)ad);
    EXPECT("finite", isfinite(x1) && isfinite(x2), "roots %g %g", x1, x2);
    if (D < 0) {
        EXPECT("complex", rc != 0, "complex roots reported as real");
        EXPECT("complex-value", fabsl(x1 - (long double)b / a) <= 4 * eps * fabsl((long double)b / a) && fabsl(fabsl((long double)x2) - fabsl(q / a)) <= 8 * eps * fabsl(q / a), "real part %g imaginary part %g", x1, x2);
    } else {
        EXPECT("real", rc == 0 || D == 0, "real roots reported as complex");
        long double s = b < 0 ? b - q : b + q, r1 = s / a, r2 = s == 0 ? 0 : c / s;
        EXPECT("roots", fabsl(x1 - r1) <= 16 * eps * fabsl(r1) && fabsl(x2 - r2) <= 16 * eps * fabsl(r2), "roots %.17g %.17g, exact %.17Lg %.17Lg", x1, x2, r1, r2);
    }
    mc_outcome(mc_hash(&x1, 8, 9) ^ mc_hash(&x2, 8, 9));
}
void mc_body(void)
{
    static void (*const F[])(void) = {house, apply, mult, hyper, givens, rot2, update, rotvec, rbt, diag, quad};
    F[mc_choose("family", ITEM(F))]();
}
