// C32: application threads which call the library at the same time, under every interleaving
#include "mc.h"
#include "conc.h"
#include "cfg.h"
#include "accel.h"
#include <string.h>
#include <stdlib.h>
const char *mc_name = "appthr";
extern __attribute__((weak)) void dgemm_(char *, char *, int *, int *, int *, double *, double *, int *, double *, int *, double *, double *, int *);
extern __attribute__((weak)) double ddot_(int *, double *, int *, double *, int *);
extern __attribute__((weak)) void dtrsm_(char *, char *, char *, char *, int *, int *, double *, double *, int *, double *, int *);
void mc_setup(void) { setenv("ARMAS_CONFIG", "32,32,32", 1); setenv("ARMAS_CACHE", "4096,1024", 1); setenv("ARMAS_AC_CONFIG", "8,2", 1); }
enum { MULT, MVMULT, SOLVE, CHOL, QR, CONF, ACENV, EXT, GEMMF, NULLCONF, OWNAC, SHAREDAC, CBUF, NOPS };
static const char *on[] = {"mult", "mvmult", "solve_trm", "cholfactor", "qrfactor", "conf_default", "ac_getenv", "ext_mult", "dgemm_", "mult without configuration", "own accelerator", "shared accelerator", "cbuf"};
#define ACNAME(i) ((i) == 0 ? ARMAS_AC_SIMPLE : (i) == 1 ? ARMAS_AC_WORKERS : ARMAS_AC_TRANSIENT)
typedef struct { int id, op[2], nops, n; double a[64], b[64], c[64], w[64]; int rc, err, bad; double got; } thr_t;
static struct { thr_t t[3]; int nt, first, ac; armas_ac_handle_t h; } X;
static double ival(int t, int i, int j) { return (i * 3 + j * 5 + t * 7) % 7 - 3; }
static void prep(thr_t *t, int op)
{
    int n = t->n; armas_env_t *e;
    memset(t->a, 0, sizeof t->a); memset(t->b, 0, sizeof t->b); memset(t->c, 0, sizeof t->c); memset(t->w, 0, sizeof t->w);
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) { t->a[i + j * n] = ival(t->id, i, j); t->b[i + j * n] = ival(t->id + 3, i, j); t->c[i + j * n] = ival(t->id + 5, i, j); }
    switch (op) {
    case SOLVE:     // lower unit triangle, c := inv(a) c with the known solution b
        for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) {
            double s = t->b[i + j * n]; for (int l = 0; l < i; l++) s += t->a[i + l * n] * t->b[l + j * n];
            t->c[i + j * n] = s; t->w[i + j * n] = t->b[i + j * n];
        } break;
    case CHOL:      // c = L L^T in the lower triangle
        for (int j = 0; j < n; j++) for (int i = j; i < n; i++) {
            double s = 0;
            for (int l = 0; l <= j; l++) s += (i == l ? 1 + i % 2 : ival(t->id, i, l)) * (j == l ? 1 + j % 2 : ival(t->id, j, l));
            t->c[i + j * n] = s; t->w[i + j * n] = i == j ? 1 + i % 2 : ival(t->id, i, j);
        }
        for (int j = 0; j < n; j++) for (int i = 0; i < j; i++) t->w[i + j * n] = t->c[i + j * n];
        break;
    case QR:        // upper triangular already
        for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) t->w[i + j * n] = t->c[i + j * n] = i > j ? 0 : 1 + i + j;
        break;
    case MVMULT:
        for (int i = 0; i < n; i++) { double s = 2 * t->c[i]; for (int l = 0; l < n; l++) s += t->a[i + l * n] * t->b[l]; t->w[i] = s; }
        for (int i = n; i < n * n; i++) t->w[i] = t->c[i];
        break;
    case CONF: case ACENV: case CBUF: memcpy(t->w, t->c, sizeof t->w); break;
    default:
        for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) { double s = 2 * t->c[i + j * n]; for (int l = 0; l < n; l++) s -= t->a[i + l * n] * t->b[l + j * n]; t->w[i + j * n] = s; }
    }
}
static void call(thr_t *t, int op)
{
    int n = t->n; armas_dense_t a, b, c, x, y;
    armas_make(&a, n, n, n, t->a); armas_make(&b, n, n, n, t->b); armas_make(&c, n, n, n, t->c);
    armas_make(&x, n, 1, n, t->b); armas_make(&y, n, 1, n, t->c);
    armas_conf_t cf, *d = armas_conf_default();
    cs_read(d, sizeof *d);
    cf = *d; cf.accel = 0; cf.error = 0;
    t->rc = 0;
    switch (op) {
    case MULT: t->rc = armas_mult(2, &c, -1, &a, &b, 0, &cf); break;
    case MVMULT: t->rc = armas_mvmult(2, &y, 1, &a, &x, 0, &cf); break;
    case SOLVE: t->rc = armas_solve_trm(&c, 1, &a, ARMAS_LEFT | ARMAS_LOWER | ARMAS_UNIT, &cf); break;
    case CHOL: t->rc = armas_cholfactor(&c, ARMAS_NOPIVOT, ARMAS_LOWER, &cf); break;
    case QR: { armas_dense_t tau; double tt[8]; armas_make(&tau, n, 1, n, tt); t->rc = armas_qrfactor(&c, &tau, &cf); break; }
    case CONF: { armas_env_t *e = armas_getenv(); cs_read(e, sizeof *e); if (e->mb != 32 || e->nb != 32 || e->kb != 32 || e->cmem != 4096 || e->l1mem != 1024) t->bad = 1; break; }
    case ACENV: { struct armas_ac_env *e = armas_ac_getenv(); cs_read(e, sizeof *e); if (e->max_cores != 2 || e->num_items != 8) t->bad = 1; break; }
    case EXT: t->rc = armas_ext_mult(2, &c, -1, &a, &b, 0, &cf); break;
    case GEMMF: { double al = -1, be = 2; dgemm_("N", "N", &n, &n, &n, &al, t->a, &n, t->b, &n, &be, t->c, &n); break; }
    case NULLCONF: t->rc = armas_mult(2, &c, -1, &a, &b, 0, 0); break;
    case OWNAC: {
        armas_ac_handle_t h = 0;
        t->rc = armas_ac_init(&h, ACNAME(X.ac));
        if (t->rc) break;
        cf.accel = h; t->rc = armas_mult(2, &c, -1, &a, &b, 0, &cf); armas_ac_release(h); break; }
    case SHAREDAC: cf.accel = X.h; t->rc = armas_mult(2, &c, -1, &a, &b, 0, &cf); break;
    case CBUF: { armas_cbuf_t *cb = armas_cbuf_get_thread_global(); if (!cb || !cb->data) t->bad = 1; else { memset(cb->data, t->id, cb->len); cs_write(cb->data, 64); } break; }
    }
    t->err = cf.error;
}
static void *run(void *arg)
{
    thr_t *t = arg;
    for (int k = 0; k < t->nops; k++) {
        prep(t, t->op[k]);
        cs_write(t->c, sizeof t->c);
        call(t, t->op[k]);
        cs_read(t->c, sizeof t->c);
        if (t->rc) { cs_fail("rc", "thread %d: %s returned %d error %d", t->id, on[t->op[k]], t->rc, t->err); break; }
        if (t->bad) { cs_fail("state", "thread %d: %s: settings are not complete", t->id, on[t->op[k]]); break; }
        for (int i = 0; i < t->n * t->n; i++) if (t->c[i] != t->w[i]) { cs_fail("value", "thread %d: %s: element %d is %g, expected %g", t->id, on[t->op[k]], i, t->c[i], t->w[i]); return 0; }
    }
    armas_cbuf_release_thread_global();
    return 0;
}
static void body(void *arg)
{
    pthread_t th[3]; X.h = 0;
    if (!X.first) { armas_conf_default(); armas_getenv(); armas_ac_getenv()->options = 0; }
    for (int i = 0; i < X.nt; i++) { X.t[i].bad = X.t[i].rc = 0; for (int k = 0; k < X.t[i].nops; k++) if (X.t[i].op[k] == SHAREDAC && !X.h) {
        int rc = armas_ac_init(&X.h, ACNAME(X.ac)); if (rc) { cs_fail("init", "armas_ac_init returned %d", rc); return; } } }
    for (int i = 0; i < X.nt; i++) if (pthread_create(&th[i], 0, run, &X.t[i])) { cs_fail("harness", "thread creation"); return; }
    for (int i = 0; i < X.nt; i++) pthread_join(th[i], 0);
    if (X.h) armas_ac_release(X.h);
    if (!cs_failed() && (cs_live_threads() || cs_unjoined())) cs_fail("threads-left", "%d threads alive, %d not joined", cs_live_threads(), cs_unjoined());
}
void mc_body(void)
{
    memset(&X, 0, sizeof X);
    X.first = mc_choose("later,first", 2);      // first: the very first calls of a process
    int kind = mc_choose("kind", 3);
    X.nt = 2 + (kind == 2);
    int lim = OWNAC;        // operations without an accelerator
    cs_bound_t b = {3, 4, 1, 1, 0, 3000000, 1};
    if (mc_thorough) { b.preempt = 4; b.deviate = 5; }
    int o[3] = {0}, o2 = -1;
    static const int ACS[] = {OWNAC, SHAREDAC};
    static const int SUB[] = {MULT, CONF, ACENV, GEMMF, CBUF};
    if (kind == 0) { o[0] = mc_choose("op0", NOPS - 2); o[1] = mc_choose("op1", o[0] + 1); if (o[0] >= OWNAC) o[0] += 2; if (o[1] >= OWNAC) o[1] += 2; }
    else if (kind == 1) {
        o[0] = ACS[mc_choose("accelerator use", 2)]; X.ac = mc_choose("accelerator", 3);
        int w = mc_choose("other", 3); o[1] = w == 0 ? o[0] : w == 1 ? ACENV : MULT;
        if (o[0] == SHAREDAC && w) X.t[0].op[1] = 0;
    } else { for (int i = 0; i < 3; i++) o[i] = SUB[mc_range("op", i ? 0 : 0, ITEM(SUB) - 1)]; if (o[0] < o[1] || o[1] < o[2]) return; }
    int two = kind != 2 ? mc_choose("calls each", 2) : 0;
    for (int i = 0; i < X.nt; i++) { X.t[i].id = i; X.t[i].n = kind == 1 ? 4 : 3; X.t[i].op[0] = o[i]; X.t[i].nops = 1; if (two) { X.t[i].op[1] = o[i]; X.t[i].nops = 2; } }
    if (kind == 1) { b.preempt = 2; b.deviate = 1; }
    if (kind == 2) { b.preempt = mc_thorough ? 2 : 1; b.deviate = mc_thorough ? 3 : 2; }
    if (!mc_begin()) return;
    mc_note("%s: %s | %s | %s, %d calls each, accelerator %s", X.first ? "first calls" : "later calls", on[o[0]], on[o[1]], X.nt > 2 ? on[o[2]] : "-", 1 + two, kind == 1 ? ACNAME(X.ac) : "none");
    mc_case_timeout(600);
    cs_stat_t st;
    cs_explore(&b, body, 0, &st);
    mc_ops(st.points); mc_cmp(st.execs);
    if (getenv("CS_STAT")) { FILE *f = fopen(getenv("CS_STAT"), "a"); fprintf(f, "execs=%ld points=%ld first=%d kind=%d %s|%s\n", st.execs, st.points, X.first, kind, on[o[0]], on[o[1]]); fclose(f); }
    if (st.capped) mc_capped();
    mc_outcome(mc_hash(&st, sizeof st.execs * 3, 5));
}
