// C23: extended precision operations against 113-bit arithmetic
#include "mc.h"
#include "cfg.h"
#include "work.h"
#include "vecs.h"
#include <math.h>
#include <string.h>
typedef __float128 Q;
const char *mc_name = "ext";
void mc_setup(void) {}
#define U2 ((Q)0x1p-106)
static Q qabs(Q x) { return x < 0 ? -x : x; }
static const cfg_t CF[] = {
    {64, 64, 160, 64, 1024, 256, 256 * 1024, 32 * 1024, 0},
    {8, 8, 8, 4, 4, 4, 4096, 1024, 0},
    {16, 32, 64, 8, 1024, 8, 4096, 1024, 0},
    {4, 4, 32, 2, 1024, 1, 8192, 2048, 1},
};
enum { ADOT, AXPBY, MV, MVSYM, MVTRM, MVSOLVE, GER, SYR, SYR2, MULT, MSYM, MTRM, MSOLVE, NOPS };
static const char *opn[] = {"adot", "axpby", "mvmult", "mvmult_sym", "mvmult_trm", "mvsolve_trm", "mvupdate", "mvupdate_sym", "mvupdate2_sym", "mult", "mult_sym", "mult_trm", "solve_trm"};
static uint64_t rs;
static double rnd(int e)        // full mantissa, exponent in -e..e
{
    uint64_t a = (uint64_t)mc_rnd(&rs), b = (uint64_t)mc_rnd(&rs), c = (uint64_t)mc_rnd(&rs);
    double m = 1.0 + (double)(((a & 0xffffff) << 28 | (b & 0xfffffff)) & ((1ull << 52) - 1)) * 0x1p-52;
    int ex = e ? (int)(c % (2 * e + 1)) - e : 0;
    return ldexp((c >> 12) & 1 ? -m : m, ex);
}
static double gen(int kind)
{
    switch (kind) {
    case 0: return (double)(mc_rnd(&rs) % 9 - 4);
    case 1: case 2: case 4: return rnd(6);
    default: return rnd(24);
    }
}
static int flags, op;
static gm_t A, Bm, C, Y;
static double aop(int i, int l)      // element of op(A)
{
    if (op == MSYM || op == MVSYM) { if ((flags & ARMAS_UPPER) ? i > l : i < l) { int t = i; i = l; l = t; } return G(&A, i, l); }
    if (op == ADOT) return V(&A, l);
    if (op == MULT ? flags & ARMAS_TRANSA : flags & ARMAS_TRANS) { int t = i; i = l; l = t; }
    if (op == MTRM || op == MVTRM || op == MSOLVE || op == MVSOLVE) {
        if (i == l && (flags & ARMAS_UNIT)) return 1;
        if ((flags & ARMAS_UPPER) ? i > l : i < l) return 0;
    }
    return G(&A, i, l);
}
#define RIGHT (flags & ARMAS_RIGHT)
static double M(int i, int l) { return RIGHT ? aop(l, i) : aop(i, l); }
static double *xp(int l, int v)      // element of the operand multiplied
{
    if (op == MULT) return flags & ARMAS_TRANSB ? &G(&Bm, v, l) : &G(&Bm, l, v);
    if (op == MSYM || op == MTRM || op == MSOLVE) return RIGHT ? &G(&Bm, v, l) : &G(&Bm, l, v);
    return &V(&Bm, l);
}
static double *cp(int i, int v) { return op == MULT || !RIGHT ? (op == MULT || op == MSYM ? &G(&C, i, v) : &V(&C, i)) : &G(&C, v, i); }
static int judge(double g, Q r, Q s, int terms, const char *what, int i, int j)
{
    // as if in twice the precision and rounded once; a few units of the last place for the final rounding
    Q tol = 4 * (Q)0x1p-53 * qabs(r) + 16 * (Q)(terms + 3) * (terms + 3) * U2 * s;
    Q d = qabs((Q)g - r);
    mc_cmp(1);
    if (d <= tol) return 0;
    char key[64]; snprintf(key, sizeof key, "%s:value", opn[op]);
    mc_fail(key, "%s[%d,%d] = %.17g, exact %.17g, error %.3g, accepted %.3g, sum of magnitudes %.3g", what, i, j, g, (double)r, (double)d, (double)tol, (double)s);
    return 1;
}
static void hide(gm_t *a)
{
    for (int j = 0; j < a->m.cols; j++) for (int i = 0; i < a->m.rows; i++)
        if ((flags & ARMAS_UPPER) ? i > j : i < j) G(a, i, j) = mc_canary();
        else if (i == j && (flags & ARMAS_UNIT)) G(a, i, j) = mc_canary();
}
static void fill(gm_t *a, int kind) { for (int j = 0; j < a->m.cols; j++) for (int i = 0; i < a->m.rows; i++) G(a, i, j) = gen(kind); }
static double orone(double x) { return x == 0 ? 1 : x; }

void mc_body(void)
{
    op = mc_choose("op", NOPS); flags = 0;
    static const double ALL[] = {1, -2, 0.7, 0}, BEL[] = {1, 0, -0.3};
    int mat = op >= MULT, upd = op >= GER && op <= SYR2, solve = op == MVSOLVE || op == MSOLVE, inplace = solve || op == MTRM || op == MVTRM;
    int tri = inplace, sy = op == MVSYM || op == MSYM, cfg = op <= AXPBY ? 0 : mc_choose("cfg", ITEM(CF));
    int n, m = 1, k = 0;
#define NS (mc_thorough ? MC_PICK("n", 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17) : MC_PICK("n", 1, 2, 3, 4, 5, 8, 9))
    int big = op > AXPBY && mc_choose("big", 2);
    if (big) {          // more than one block of every size
        if (op == MULT) { n = MC_PICK("n", 3, 10); m = MC_PICK("m", 4, 9); k = mc_thorough ? MC_PICK("k", 33, 70, 165) : MC_PICK("k", 70, 165); }
        else { n = mc_thorough ? MC_PICK("n", 33, 70) : 33; m = mat || upd ? MC_PICK("m", 2, 9) : 1; }
    } else {
        n = op <= AXPBY ? mc_range("n", 0, mc_thorough ? 12 : 9) : NS;
        if (mat || op == GER || op == MV) m = mc_thorough ? MC_PICK("m", 1, 2, 3, 4, 5, 9) : MC_PICK("m", 1, 2, 3, 5);
        if (op == MULT) k = mc_thorough ? MC_PICK("k", 1, 2, 3, 4, 5, 7, 9) : MC_PICK("k", 1, 2, 3, 5, 9);
    }
    if (op == MULT) flags = MC_PICK("flags", 0, ARMAS_TRANSA, ARMAS_TRANSB, ARMAS_TRANSA | ARMAS_TRANSB);
    if (op == MV) flags = MC_PICK("flags", 0, ARMAS_TRANS);
    if (sy || tri || op == SYR || op == SYR2) flags |= MC_PICK("uplo", ARMAS_LOWER, ARMAS_UPPER);
    if (tri) flags |= MC_PICK("trans", 0, ARMAS_TRANS) | MC_PICK("unit", 0, ARMAS_UNIT);
    if (op == MSYM || op == MTRM || op == MSOLVE) flags |= MC_PICK("side", ARMAS_LEFT, ARMAS_RIGHT);
    int kind = mc_choose("data", solve ? 4 : 6), lay = big ? LP : MC_PICK("layout", LT, LP);
    int vk = mat ? 0 : big ? VR : MC_PICK("vectors", VC, VR);
    double alpha = ALL[mc_choose("alpha", big || solve ? 3 : 4)], beta = inplace || op == ADOT ? 0 : BEL[mc_choose("beta", big ? 1 : 3)];
    int wk = solve && !big ? mc_choose("workspace", 3) : 0;       // allocated by the library, as advised, one column
    int seed = mc_range("seed", 1, mc_thorough ? 3 : 1);
    if (!mc_begin()) return;
    mc_note("%s n=%d m=%d k=%d flags=0x%x data=%d layout=%d vectors=%d alpha=%g beta=%g cfg=%d workspace=%d seed=%d", opn[op], n, m, k, flags, kind, lay, vk, alpha, beta, cfg, wk, seed);
    cfg_set(&CF[cfg]); cfg_poison_cbuf();
    rs = 88172645463325252ull + seed * 7919 + n * 131 + m * 17 + kind;
    armas_conf_t cf = *armas_conf_default();
    int rc = 0, vk2 = vk == VC ? VR : VC;
    if (op == AXPBY || upd) {
        int rn = n, cn = op == GER ? m : n;
        if (op == AXPBY) { gv_new(&A, n, vk); gv_new(&Bm, n, vk2); gv_new(&Y, 0, VC); }
        else { gm_new(&A, rn, cn, lay); gv_new(&Bm, rn, vk); gv_new(&Y, cn, vk2); }
        fill(&A, kind); fill(&Bm, kind); fill(&Y, kind);
#define TERM(i, j) (op == AXPBY ? (Q)alpha * V(&Bm, i) : op == GER ? (Q)alpha * V(&Bm, i) * V(&Y, j) : op == SYR ? (Q)alpha * V(&Bm, i) * V(&Bm, j) : (Q)alpha * V(&Bm, i) * V(&Y, j) + (Q)alpha * V(&Y, i) * V(&Bm, j))
#define AP(i, j) (*(op == AXPBY ? &V(&A, i) : &G(&A, i, j)))
#define INS(i, j) (op == SYR || op == SYR2 ? ((flags & ARMAS_UPPER) ? i <= j : i >= j) : 1)
        int cc = op == AXPBY ? 1 : cn;
        if (op == SYR2 && (kind == 2 || kind == 5) && n > 1)        // the two products cancel
            for (int i = 1; i < n; i++) V(&Y, i) = -(double)((Q)V(&Bm, i) * V(&Y, 0) / orone(V(&Bm, 0)));
        if (kind == 4 || kind == 3) for (int j = 0; j < cc; j++) for (int i = 0; i < n; i++) AP(i, j) = -(double)(TERM(i, j) / orone(beta));
        if (op == SYR || op == SYR2) { int f = flags; flags &= ~ARMAS_UNIT; hide(&A); flags = f; }
        Q *R = mc_mem(sizeof(Q) * (n * cc + 1)), *S = mc_mem(sizeof(Q) * (n * cc + 1));
        for (int j = 0; j < cc; j++) for (int i = 0; i < n; i++) if (INS(i, j)) {
            Q t = TERM(i, j), a = (Q)beta * AP(i, j);
            R[i + j * n] = t + a;
            S[i + j * n] = (op == SYR2 ? qabs((Q)alpha * V(&Bm, i) * V(&Y, j)) + qabs((Q)alpha * V(&Y, i) * V(&Bm, j)) : qabs(t)) + qabs(a);
        }
        gm_snap(&A); gm_snap(&Bm); gm_snap(&Y);
        switch (op) {
        case AXPBY: rc = armas_ext_axpby(beta, &A.m, alpha, &Bm.m, &cf); break;
        case GER: rc = armas_ext_mvupdate(beta, &A.m, alpha, &Bm.m, &Y.m, &cf); break;
        case SYR: rc = armas_ext_mvupdate_sym(beta, &A.m, alpha, &Bm.m, flags, &cf); break;
        default: rc = armas_ext_mvupdate2_sym(beta, &A.m, alpha, &Bm.m, &Y.m, flags, &cf); break;
        }
        mc_ops(1);
        if (rc) { char key[64]; snprintf(key, sizeof key, "%s:rc", opn[op]); mc_fail(key, "returned %d error %d", rc, cf.error); return; }
        gm_same(&Bm, "x"); gm_same(&Y, "y"); gm_guard(&A, "target");
        for (int j = 0; j < cc; j++) for (int i = 0; i < n; i++) {
            double g = AP(i, j);
            if (!INS(i, j)) { if (!mc_iscanary(g)) { mc_fail("outside-triangle", "%s wrote [%d,%d]", opn[op], i, j); return; } continue; }
            if (judge(g, R[i + j * n], S[i + j * n], 2, "target", i, j)) return;
        }
        return;
    }
    // R(i,v) = beta*C(i,v) + alpha sum_l M(i,l) X(l,v)
    int L = op == MULT ? k : op == MV ? (flags & ARMAS_TRANS ? n : m) : n, rows = op == MULT ? n : op == ADOT ? 1 : op == MV ? (flags & ARMAS_TRANS ? m : n) : n, nv = mat ? m : 1;
    if (op == ADOT) gv_new(&A, n, vk2);
    else if (op == MULT) gm_new(&A, flags & ARMAS_TRANSA ? k : n, flags & ARMAS_TRANSA ? n : k, lay);
    else if (op == MV) gm_new(&A, n, m, lay);
    else gm_new(&A, n, n, lay);
    if (op == MULT) gm_new(&Bm, flags & ARMAS_TRANSB ? m : k, flags & ARMAS_TRANSB ? k : m, lay);
    else if (mat) gm_new(&Bm, RIGHT ? m : n, RIGHT ? n : m, lay);
    else gv_new(&Bm, L, vk);
    if (op == MULT) gm_new(&C, n, m, lay);
    else if (op == MSYM) gm_new(&C, RIGHT ? m : n, RIGHT ? n : m, lay);
    else gv_new(&C, op == MV || op == MVSYM ? rows : 0, vk2);
    fill(&A, kind); fill(&Bm, kind); fill(&C, kind);
    if (solve) for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) {
        if (kind != 0) G(&A, i, j) = rnd(0) * (i == j ? 1 : kind == 3 ? 0.5 : 0.25);
        else if (i == j) G(&A, i, i) = 1 + (i % 3);
        if (big && i != j) G(&A, i, j) /= 8;
    }
    if (tri || sy) { int f = flags; if (sy) flags &= ~ARMAS_UNIT; hide(&A); flags = f; }
    Q *R = mc_mem(sizeof(Q) * (rows * nv + 1)), *S = mc_mem(sizeof(Q) * (rows * nv + 1));
    if (!solve) {
        for (int v = 0; v < nv && L > 0; v++) {
            int i0 = (v + (kind == 5)) % rows;
            if (kind >= 2 && kind != 4 && !(kind == 5 && 0)) {       // make one row cancel: correct the last (or first) term
                int l0 = -1;
                for (int l = 0; l < L; l++) if (M(i0, l) != 0 && (l0 < 0 || kind != 5)) l0 = l;
                Q s = 0; for (int l = 0; l < L; l++) if (l != l0) s += (Q)M(i0, l) * *xp(l, v);
                if (l0 >= 0) *xp(l0, v) = -(double)(s / M(i0, l0));
            }
        }
        for (int v = 0; v < nv; v++) for (int i = 0; i < rows; i++) {
            Q s = 0, a = 0;
            for (int l = 0; l < L; l++) { Q t = (Q)M(i, l) * *xp(l, v); s += t; a += qabs(t); }
            s *= alpha; a *= qabs(alpha);
            if (!inplace && op != ADOT) {
                if (kind == 4) *cp(i, v) = -(double)(s / orone(beta));
                Q c = (Q)beta * *cp(i, v); s += c; a += qabs(c);
            }
            R[i + v * rows] = s; S[i + v * rows] = a;
        }
    } else {
        int up = ((flags & ARMAS_UPPER) != 0) != ((flags & ARMAS_TRANS) != 0) ? 1 : 0; if (RIGHT) up = !up;
        Q *x = mc_mem(sizeof(Q) * n), *w = mc_mem(sizeof(Q) * n), *z = mc_mem(sizeof(Q) * n);
        for (int v = 0; v < nv; v++) {
            if (kind >= 2) {        // the solution has elements of very different size
                for (int i = 0; i < n; i++) x[i] = rnd(kind == 3 ? 20 : 8);
                for (int i = 0; i < n; i++) { Q s = 0; for (int l = 0; l < n; l++) s += (Q)M(i, l) * x[l]; *xp(i, v) = (double)s; }
            }
            for (int p = 0; p < n; p++) {
                int i = up ? n - 1 - p : p;
                Q s = (Q)alpha * *xp(i, v);
                for (int l = 0; l < n; l++) if (up ? l > i : l < i) s -= (Q)M(i, l) * x[l];
                x[i] = s / M(i, i);
            }
            // |inv(M)| |M| |x|, bounded through the comparison matrix
            for (int i = 0; i < n; i++) { w[i] = qabs((Q)alpha * *xp(i, v)); for (int l = 0; l < n; l++) if (l == i || (up ? l > i : l < i)) w[i] += qabs((Q)M(i, l)) * qabs(x[l]); }
            for (int p = 0; p < n; p++) {
                int i = up ? n - 1 - p : p;
                Q s = w[i];
                for (int l = 0; l < n; l++) if (up ? l > i : l < i) s += qabs((Q)M(i, l)) * z[l];
                z[i] = s / qabs((Q)M(i, i));
            }
            for (int i = 0; i < n; i++) { R[i + v * n] = x[i]; S[i + v * n] = z[i]; }
        }
    }
    gm_snap(&A); gm_snap(&Bm); gm_snap(&C);
    double res = 99;
    switch (op) {
    case ADOT: rc = armas_ext_adot(&res, alpha, &A.m, &Bm.m, &cf); break;
    case MV: rc = armas_ext_mvmult(beta, &C.m, alpha, &A.m, &Bm.m, flags, &cf); break;
    case MVSYM: rc = armas_ext_mvmult_sym(beta, &C.m, alpha, &A.m, &Bm.m, flags, &cf); break;
    case MVTRM: rc = armas_ext_mvmult_trm(&Bm.m, alpha, &A.m, flags, &cf); break;
    case MULT: rc = armas_ext_mult(beta, &C.m, alpha, &A.m, &Bm.m, flags, &cf); break;
    case MSYM: rc = armas_ext_mult_sym(beta, &C.m, alpha, &A.m, &Bm.m, flags, &cf); break;
    case MTRM: rc = armas_ext_mult_trm(&Bm.m, alpha, &A.m, flags, &cf); break;
    default: {
        if (wk == 0) { rc = op == MVSOLVE ? armas_ext_mvsolve_trm(&Bm.m, alpha, &A.m, flags, &cf) : armas_ext_solve_trm(&Bm.m, alpha, &A.m, flags, &cf); break; }
        armas_wbuf_t q = ARMAS_WBNULL;
        rc = op == MVSOLVE ? armas_ext_mvsolve_trm_w(&Bm.m, alpha, &A.m, flags, &q, &cf) : armas_ext_solve_trm_w(&Bm.m, alpha, &A.m, flags, &q, &cf);
        if (rc || gm_diff_any(&Bm) >= 0) { mc_fail("query", "%s: workspace query returned %d error %d%s", opn[op], rc, cf.error, gm_diff_any(&Bm) >= 0 ? " and changed the operand" : ""); return; }
        size_t bytes = wk == 1 ? q.bytes : n * sizeof(double);
        if (bytes == 0) bytes = n * sizeof(double);
        armas_wbuf_t *w = work(bytes);
        rc = op == MVSOLVE ? armas_ext_mvsolve_trm_w(&Bm.m, alpha, &A.m, flags, w, &cf) : armas_ext_solve_trm_w(&Bm.m, alpha, &A.m, flags, w, &cf);
        workdone();
        }
    }
    mc_ops(1);
    if (rc) { char key[64]; snprintf(key, sizeof key, "%s:rc", opn[op]); mc_fail(key, "returned %d error %d", rc, cf.error); return; }
    gm_same(&A, "A"); if (!inplace) gm_same(&Bm, "B"), gm_guard(&C, "C"); else gm_guard(&Bm, "B"), gm_same(&C, "C");
    for (int v = 0; v < nv; v++) for (int i = 0; i < rows; i++) {
        double g = op == ADOT ? res : inplace ? *xp(i, v) : *cp(i, v);
        if (judge(g, R[i + v * rows], S[i + v * rows], L + 2, "result", i, v)) return;
        mc_outcome((uint64_t)(g * 8));
    }
}
