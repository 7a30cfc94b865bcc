/* C10: element-wise matrix operations, copies and norms */
#include "mc.h"
#include "cfg.h"
#include "vecs.h"
const char *mc_name = "map";
void mc_setup(void) {}
static armas_conf_t cf;
#define EXPECT(key, cond, ...) do { mc_cmp(1); if (!(cond)) { mc_fail(key, __VA_ARGS__); return; } } while (0)
enum { MSCALE, MADD, SETV, SETA, MKTRM, APPLY, APPLY2, ITER, NOP };
static const char *opn[] = {"mscale", "madd", "set_values", "set_all", "make_trm", "apply", "apply2", "iterate"};
static double fval(int i, int j) { return 100 + 10 * i + j; }
static double gen_n; static double fgen(void) { return 1000 + gen_n++; }
static double fop(double v) { return 3 * v - 1; }
static double fop2(double v, void *p) { return 2 * v + *(double *)p; }
static double itsum; static long itn, itstop;
static int fiter(double v, void *p) { itn++; itsum += v * itn; return p && itn == itstop ? -1 : 0; }
static int sel(int fl, int i, int j)      /* element selected by flags */
{
    if (fl & ARMAS_UPPER) return fl & ARMAS_UNIT ? i < j : i <= j;
    if (fl & ARMAS_LOWER) return fl & ARMAS_UNIT ? i > j : i >= j;
    return 1;
}
static void unary(int op, int m, int n, int fl, int lay, double al, int stop)
{
    if (!mc_begin()) return;
    mc_note("%s %dx%d flags=0x%x layout=%d alpha=%g", opn[op], m, n, fl, lay, al);
    gm_t A; gm_new(&A, m, n, lay); gm_ints(&A, m * 7 + n, -9, 9); gm_snap(&A);
    cf = *armas_conf_default(); cf.error = 0; gen_n = 0;
    int rc = 0, wantrc = 0; double par = al;
    if ((fl & ARMAS_SYMM) && m != n) wantrc = -1;
    itn = 0; itsum = 0; itstop = stop; uint64_t h = op * 3 + fl;
    switch (op) {
    case MSCALE: rc = armas_mscale(&A.m, al, fl, &cf); break;
    case MADD: rc = armas_madd(&A.m, al, fl, &cf); break;
    case SETV: rc = armas_set_values(&A.m, fval, fl); break;
    case SETA: rc = armas_set_all(&A.m, fgen, fl); break;
    case MKTRM: armas_make_trm(&A.m, fl); break;
    case APPLY: rc = armas_apply(&A.m, fop, fl); break;
    case APPLY2: rc = armas_apply2(&A.m, fop2, &par, fl); break;
    case ITER: rc = armas_iterate(&A.m, fiter, &par, fl); break;
    }
    mc_ops(1);
    gm_guard(&A, "A");
    if (op == ITER) {
        long k = 0; double s = 0; int stopped = 0;
        for (int j = 0; j < n && !stopped; j++) for (int i = 0; i < m; i++) if (sel(fl & ~ARMAS_UNIT, i, j)) { k++; s += G(&A, i, j) * k; if (k == stop) { stopped = 1; break; } }
        EXPECT("iterate-count", itn == k, "%ld calls, expected %ld", itn, k);
        EXPECT("iterate-value", itsum == s, "sum %g, expected %g", itsum, s);
        EXPECT("iterate-rc", stopped ? rc < 0 : rc == 0, "rc %d, stopped %d", rc, stopped);
        gm_same(&A, "A"); mc_outcome(mc_hash(&s, 8, k)); return;
    }
    if (wantrc) { EXPECT("rc", rc < 0, "accepted a non-square symmetric matrix"); gm_same(&A, "A"); return; }
    EXPECT("rc", rc == 0, "returned %d error %d", rc, cf.error);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
        double o = S(&A, i, j), e = o, g = G(&A, i, j); int s = sel(op >= APPLY ? fl & ~ARMAS_UNIT : fl, i, j);
        switch (op) {
        case MSCALE: if (s) e = o * al; break;
        case MADD: if (s) e = o + al; break;
        case SETV: case SETA:
            if (op == SETA && s) { EXPECT("set-generated", g >= 1000 || ((fl & ARMAS_SYMM) && (fl & ARMAS_UNIT) && i == j), "element %d,%d is %g", i, j, g); e = g; }
            else if (s) e = fval(i, j);
            if (fl & ARMAS_SYMM) { if (i == j && (fl & ARMAS_UNIT)) e = 1; else if (op == SETV) e = i >= j ? fval(i, j) : fval(j, i); else e = G(&A, i > j ? i : j, i > j ? j : i); }
            break;
        case MKTRM:
            if (i == j && (fl & ARMAS_UNIT) && (fl & (ARMAS_UPPER | ARMAS_LOWER))) e = 1;
            else if (fl & ARMAS_UPPER) e = i > j ? 0 : o;
            else if (fl & ARMAS_LOWER) e = i < j ? 0 : o;
            break;
        case APPLY: if (s) e = 3 * o - 1; break;
        case APPLY2: if (s) e = 2 * o + al; break;
        }
        EXPECT("value", g == e, "A[%d,%d] = %g, expected %g (was %g)", i, j, g, e, o);
        h = h * 31 + (int64_t)(2 * e);
    }
    mc_outcome(h);
}
enum { MCOPY, MPLUS, NEWCOPY, CLOSE, COPYV };
static void binary(int op, int m, int n, int fl, int la, int lb, double al, double be, int one)
{
    if (!mc_begin()) return;
    int tr = (fl & (ARMAS_TRANS | ARMAS_TRANSB)) != 0, ab = (fl & ARMAS_ABS) != 0;
    mc_note("%s %dx%d flags=0x%x layouts=%d,%d alpha=%g beta=%g one=%d", op == MCOPY ? "mcopy" : op == MPLUS ? "mplus" : op == NEWCOPY ? "newcopy" : "allclose", m, n, fl, la, lb, al, be, one);
    gm_t A, B; gm_new(&A, m, n, la); gm_new(&B, one ? 1 : tr ? n : m, one ? 1 : tr ? m : n, lb);
    gm_ints(&A, m * 7 + n, -9, 9); gm_ints(&B, m * 5 + n, -9, 9); gm_snap(&A); gm_snap(&B);
    cf = *armas_conf_default(); cf.error = 0; int rc = 0; uint64_t h = op * 3 + fl;
    if (op == NEWCOPY) {
        long live = mc_live();
        armas_dense_t *C = armas_newcopy(&A.m); mc_ops(1);
        EXPECT("newcopy", C != 0, "no copy");
        EXPECT("newcopy-size", C->rows == m && C->cols == n, "%dx%d", C->rows, C->cols);
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) EXPECT("value", armas_get(C, i, j) == G(&A, i, j), "element %d,%d", i, j);
        gm_same(&A, "A"); armas_free(C);
        EXPECT("leak", mc_live() == live, "%ld allocations left", mc_live() - live);
        return;
    }
    if (op == CLOSE) {
        gm_copyfrom(&B, &A);
        EXPECT("allclose", armas_allclose(&A.m, &B.m), "equal matrices are not close");
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { double o = G(&B, i, j); G(&B, i, j) = o + 1; mc_ops(1); EXPECT("allclose", !armas_allclose(&A.m, &B.m), "difference at %d,%d not seen", i, j); G(&B, i, j) = o; }
        /* tolerances: |a - b| <= atol + rtol*|b|, on and just outside the bound (all values exact) */
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) for (int t = 0; t < 5; t++) for (int sg = -1; sg <= 1; sg += 2) {
            static const double TOL[5][2] = {{0, 0}, {2, 0}, {0, 0.5}, {1, 0.25}, {0.5, 1}}; double oa = G(&A, i, j), ob = -8, bd = TOL[t][0] + TOL[t][1] * 8; double o = G(&B, i, j); G(&B, i, j) = ob;
            G(&A, i, j) = ob + sg * bd; mc_ops(2); EXPECT("intolerance", armas_intolerance(&A.m, &B.m, TOL[t][0], TOL[t][1]) != 0, "difference %g at %d,%d refused by %g + %g*8", bd, i, j, TOL[t][0], TOL[t][1]);
            G(&A, i, j) = ob + sg * (bd + 0.125); EXPECT("intolerance", armas_intolerance(&A.m, &B.m, TOL[t][0], TOL[t][1]) == 0, "difference %g at %d,%d accepted by %g + %g*8", bd + 0.125, i, j, TOL[t][0], TOL[t][1]); G(&A, i, j) = oa; G(&B, i, j) = o; }
        { gm_t D; gm_new(&D, m + 1, n, lb); EXPECT("intolerance", armas_intolerance(&A.m, &D.m, 1e9, 1) == 0 && armas_intolerance(&D.m, &A.m, 1e9, 1) == 0, "different shapes are close"); }
        return;
    }
    rc = op == MCOPY ? armas_mcopy(&A.m, &B.m, fl, &cf) : armas_mplus(al, &A.m, be, &B.m, fl, &cf);
    mc_ops(1);
    EXPECT("rc", rc == 0, "returned %d error %d", rc, cf.error);
    gm_same(&B, "B"); gm_guard(&A, "A");
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
        double o = S(&A, i, j), b = one ? G(&B, 0, 0) : tr ? G(&B, j, i) : G(&B, i, j), e;
        if (ab) { o = fabs(o); b = fabs(b); }
        e = op == MCOPY ? b : sel(fl, i, j) ? al * o + be * b : S(&A, i, j);
        EXPECT("value", G(&A, i, j) == e, "A[%d,%d] = %g, expected %g", i, j, G(&A, i, j), e);
        h = h * 31 + (int64_t)(2 * e);
    }
    mc_outcome(h);
}
static void veccopy(int n, int k1, int k2, int what)
{
    if (!mc_begin()) return;
    mc_note("%s n=%d %s <- %s", what ? "mplus" : "mcopy", n, vkname[k1], vkname[k2]);
    gm_t A, B; gv_new(&A, n, k1); gv_new(&B, n, k2); gv_ints(&A, 3, -9, 9); gv_ints(&B, 4, -9, 9); gm_snap(&A); gm_snap(&B);
    cf = *armas_conf_default();
    int rc = what ? armas_mplus(2, &A.m, -3, &B.m, 0, &cf) : armas_mcopy(&A.m, &B.m, 0, &cf); mc_ops(1);
    EXPECT("rc", rc == 0, "returned %d error %d", rc, cf.error);
    for (int i = 0; i < n; i++) { double e = what ? 2 * VS(&A, i) - 3 * V(&B, i) : V(&B, i); EXPECT("value", V(&A, i) == e, "element %d is %g, expected %g", i, V(&A, i), e); }
    gm_same(&B, "B"); gm_guard(&A, "A");
}
static void norms(int m, int n, int lay, int sc)
{
    if (!mc_begin()) return;
    static const double SC[] = {1, 1e-200, 1e200};
    mc_note("mnorm %dx%d layout=%d scale=%g", m, n, lay, SC[sc]);
    gm_t A; gm_new(&A, m, n, lay); gm_ints(&A, m * 3 + n, -6, 6);
    double one = 0, inf = 0, fr = 0, s; int vec = m == 1 || n == 1; double as = 0, am = 0;
    for (int j = 0; j < n; j++) { s = 0; for (int i = 0; i < m; i++) { double v = fabs(G(&A, i, j)); s += v; fr += v * v; as += v; am = fmax(am, v); } one = fmax(one, s); }
    for (int i = 0; i < m; i++) { s = 0; for (int j = 0; j < n; j++) s += fabs(G(&A, i, j)); inf = fmax(inf, s); }
    fr = sqrt(fr);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) G(&A, i, j) *= SC[sc];
    gm_snap(&A); cf = *armas_conf_default(); cf.error = 0;
    if (vec) { one = as; inf = am; }
    double e[4] = {one * SC[sc], fr * SC[sc], inf * SC[sc], fr * SC[sc]}; static const int W[] = {ARMAS_NORM_ONE, ARMAS_NORM_TWO, ARMAS_NORM_INF, ARMAS_NORM_FRB};
    for (int k = 0; k < 4; k++) {
        double g = armas_mnorm(&A.m, W[k], &cf); mc_ops(1);
        if (k == 1 && !vec) { EXPECT("two-norm", g == 0 && cf.error == ARMAS_EIMP, "matrix 2-norm returned %g error %d", g, cf.error); continue; }
        EXPECT("norm", fabs(g - e[k]) <= 1e-14 * e[k], "norm %d is %.17g, expected %.17g", k, g, e[k]);
    }
    gm_same(&A, "A"); mc_outcome(mc_hash(e, sizeof e, m));
}
static void scaleto(int m, int n, int fl, double from, double to)
{
    if (!mc_begin()) return;
    mc_note("scale_to %dx%d flags=0x%x from=%g to=%g", m, n, fl, from, to);
    gm_t A; gm_new(&A, m, n, LP); gm_ints(&A, 5, -9, 9);
    double big = fabs(from) > 1 ? from / 16 : 1;
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) G(&A, i, j) *= big;
    gm_snap(&A); cf = *armas_conf_default();
    int rc = armas_scale_to(&A.m, from, to, fl, &cf); mc_ops(1);
    EXPECT("rc", rc == 0, "returned %d", rc);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
        double e = sel(fl, i, j) ? S(&A, i, j) / from * to : S(&A, i, j);
        EXPECT("scale-to", G(&A, i, j) == e || fabs(G(&A, i, j) - e) <= 1e-14 * fabs(e), "A[%d,%d] = %g, expected %g", i, j, G(&A, i, j), e);
    }
    gm_guard(&A, "A");
}
/* every matrix over a small alphabet of magnitudes: zeros, equal and very different elements in every place */
static void normpat(int m, int n, int lay, int sc, const int *v)
{
    if (!mc_begin()) return;
    static const double AB[] = {0, 1, -1e3, 3e-5}, SC[] = {1, 1e-250, 1e250};
    gm_t A; gm_new(&A, m, n, lay); char t[80]; int k = 0;
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { G(&A, i, j) = AB[v[j * m + i]]; k += snprintf(t + k, sizeof t - k, "%d", v[j * m + i]); }
    mc_note("mnorm %dx%d pattern %s layout=%d scale=%g", m, n, t, lay, SC[sc]);
    long double fr = 0, one = 0, inf = 0, s, as = 0, am = 0;
    for (int j = 0; j < n; j++) { s = 0; for (int i = 0; i < m; i++) { long double x = fabsl((long double)G(&A, i, j)); s += x; fr += x * x; as += x; if (x > am) am = x; } if (s > one) one = s; }
    for (int i = 0; i < m; i++) { s = 0; for (int j = 0; j < n; j++) s += fabs(G(&A, i, j)); if (s > inf) inf = s; }
    if (m == 1 || n == 1) { one = as; inf = am; }
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) G(&A, i, j) *= SC[sc];
    gm_snap(&A); cf = *armas_conf_default(); cf.error = 0;
    double e[3] = {one * SC[sc], inf * SC[sc], sqrtl(fr) * SC[sc]}; static const int W[] = {ARMAS_NORM_ONE, ARMAS_NORM_INF, ARMAS_NORM_FRB};
    for (k = 0; k < 3; k++) { double g = armas_mnorm(&A.m, W[k], &cf); mc_ops(1); EXPECT("norm", fabs(g - e[k]) <= 1e-13 * e[k], "norm %d is %.17g, expected %.17g", k, g, e[k]); }
    gm_same(&A, "A"); mc_outcome(mc_hash(e, sizeof e, m));
}
static const int FL[] = {0, ARMAS_UPPER, ARMAS_LOWER, ARMAS_UPPER | ARMAS_UNIT, ARMAS_LOWER | ARMAS_UNIT, ARMAS_SYMM, ARMAS_SYMM | ARMAS_UNIT};
void mc_body(void)
{
    int N = mc_sel(9, 13, 18);
    switch (mc_choose("suite", 7)) {
    case 0: {
        int op = mc_choose("op", NOP), m = mc_range("m", 0, N), n = mc_range("n", 0, N);
        int nf = op >= APPLY ? 3 : op == SETV || op == SETA ? 7 : op == MKTRM ? 5 : 6;
        int vec = m == 1 || n == 1;
        int fl = FL[op == MADD && vec ? 0 : mc_choose("flags", nf)];
        if ((m == 0 || n == 0) && (fl & ARMAS_SYMM)) return;
        unary(op, m, n, fl, mc_choose("layout", 2), MC_PICKD("alpha", 3, -0.5, 0), op == ITER ? mc_range("stop", 0, 8) : 0);
        break; }
    case 1: {
        int op = MC_PICK("op", MCOPY, MPLUS, NEWCOPY, CLOSE), m = mc_range("m", 1, N), n = mc_range("n", 1, N), fl = 0;
        int vec = m == 1 || n == 1;
        if (op == MCOPY) fl = MC_PICK("flags", 0, ARMAS_TRANS);
        if (op == MPLUS && !vec) fl = MC_PICK("flags", 0, ARMAS_TRANS, ARMAS_TRANSB, ARMAS_UPPER, ARMAS_LOWER, ARMAS_ABS, ARMAS_ABS | ARMAS_TRANS, ARMAS_ABS | ARMAS_UPPER, ARMAS_ABS | ARMAS_LOWER);
        binary(op, m, n, fl, mc_choose("layout", 2), mc_choose("layoutB", 2), op == MPLUS ? MC_PICKD("alpha", 1, -2, 0) : 1, op == MPLUS ? MC_PICKD("beta", 1, 0.5, 0) : 1, 0);
        break; }
    case 2: {
        int m = mc_range("m", 2, N), n = mc_range("n", 2, N);
        binary(MPLUS, m, n, MC_PICK("flags", 0, ARMAS_UPPER, ARMAS_LOWER), mc_choose("layout", 2), mc_choose("layoutB", 2), 1, MC_PICKD("beta", 1, 0.5, 0), 1);
        break; }
    case 3: {
        int n = mc_range("n", 1, 24);
        veccopy(n, mc_choose("k1", NVK), mc_choose("k2", NVK), mc_choose("op", 2));
        break; }
    case 4: {
        int m = mc_range("m", 1, N), n = mc_range("n", 1, N);
        norms(m, n, mc_choose("layout", 2), mc_choose("scale", 3));
        break; }
    case 6: {
        static const int SH[][2] = {{2, 3}, {3, 2}, {1, 6}, {6, 1}, {2, 2}, {1, 3}, {7, 1}, {2, 4}};
        int sh = mc_choose("shape", mc_thorough ? 8 : 6), v[8];
        for (int i = 0; i < SH[sh][0] * SH[sh][1]; i++) v[i] = mc_choose("e", 4);
        normpat(SH[sh][0], SH[sh][1], mc_choose("layout", 2), mc_choose("scale", 3), v);
        break; }
    case 5: {
        int m = mc_range("m", 1, 4), n = mc_range("n", 1, 4);
        scaleto(m, n, MC_PICK("flags", 0, ARMAS_UPPER, ARMAS_LOWER), MC_PICKD("from", 1, 3, 1e-300, 1e300), MC_PICKD("to", 1, 7, 1e-300, 1e300));
        break; }
    }
}
