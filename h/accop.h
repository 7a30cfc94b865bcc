/* level-3 operations on small integer operands, run with and without an accelerator */
#ifndef ACCOP_H
#define ACCOP_H
#include "accel.h"
enum { GEMM, SYMM, TRMM, TRSM };
typedef struct {
    int op, flags, m, n, k; double alpha, beta;
    gm_t A, B, C;           /* C: result, B: the in/out operand of TRMM/TRSM */
    double *want, *init; int wantrc;
} aop_t;
static const char *opname[] = {"mult", "mult_sym", "mult_trm", "solve_trm"};
static gm_t *aop_out(aop_t *o) { return o->op >= TRMM ? &o->B : &o->C; }
static int aop_call(aop_t *o, armas_conf_t *cf)
{
    switch (o->op) {
    case GEMM: return armas_mult(o->beta, &o->C.m, o->alpha, &o->A.m, &o->B.m, o->flags, cf);
    case SYMM: return armas_mult_sym(o->beta, &o->C.m, o->alpha, &o->A.m, &o->B.m, o->flags, cf);
    case TRMM: return armas_mult_trm(&o->B.m, o->alpha, &o->A.m, o->flags, cf);
    default:   return armas_solve_trm(&o->B.m, o->alpha, &o->A.m, o->flags, cf);
    }
}
static void aop_reset(aop_t *o)
{
    gm_t *g = aop_out(o);
    memcpy(g->buf, o->init, sizeof(double) * g->len);
}
/* result of the sequential call (C06..C08 compare that one with a naive reference) */
static void aop_make(aop_t *o, int op, int m, int n, int k, int flags, double alpha, double beta, int lay)
{
    memset(o, 0, sizeof *o);
    o->op = op; o->flags = flags; o->m = m; o->n = n; o->k = k; o->alpha = alpha; o->beta = beta;
    int ta = (flags & (ARMAS_TRANSA | ARMAS_CTRANSA)) != 0, tb = (flags & (ARMAS_TRANSB | ARMAS_CTRANSB)) != 0, rt = (flags & ARMAS_RIGHT) != 0;
    if (op == GEMM) { gm_new(&o->A, ta ? k : m, ta ? m : k, lay); gm_new(&o->B, tb ? n : k, tb ? k : n, lay); gm_new(&o->C, m, n, lay); }
    else {
        int na = rt ? n : m; gm_new(&o->A, na, na, lay);
        if (op == SYMM) { gm_new(&o->B, tb ? n : m, tb ? m : n, lay); gm_new(&o->C, m, n, lay); }
        else gm_new(&o->B, m, n, lay);
    }
    gm_ints(&o->A, 11, op == TRSM ? -1 : -3, op == TRSM ? 1 : 3); gm_ints(&o->B, 12, -4, 4);
    if (op == TRSM) for (int i = 0; i < o->A.m.rows; i++) G(&o->A, i, i) = i % 3 == 1 ? -1 : (i % 3 ? 2 : 1);
    if (op <= SYMM) gm_ints(&o->C, 13, -5, 5);
    gm_t *g = aop_out(o);
    o->init = mc_mem(sizeof(double) * (g->len + 1)); o->want = mc_mem(sizeof(double) * (g->len + 1));
    memcpy(o->init, g->buf, sizeof(double) * g->len);
    armas_conf_t cf = *armas_conf_default(); cf.accel = 0;
    o->wantrc = aop_call(o, &cf);
    memcpy(o->want, g->buf, sizeof(double) * g->len);
    aop_reset(o);
    gm_snap(&o->A); if (op <= SYMM) gm_snap(&o->B);
}
/* first differing buffer index (view, padding and guards), or -1 */
static long aop_check(aop_t *o)
{
    gm_t *g = aop_out(o);
    for (long i = 0; i < g->len; i++) if (!mc_biteq(g->buf[i], o->want[i]) && !(g->buf[i] == o->want[i])) return i;
    return -1;
}
static int aop_operands_changed(aop_t *o) { return gm_diff_any(&o->A) >= 0 || (o->op <= SYMM && gm_diff_any(&o->B) >= 0); }
#endif
