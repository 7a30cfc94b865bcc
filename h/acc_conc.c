/* C01, C02, C03: accelerated level-3 calls under every interleaving */
#include "mc.h"
#include "conc.h"
#include "cfg.h"
#include "accop.h"
const char *mc_name = "acc_conc";
static const cfg_t CF = {64, 64, 160, 64, 1024, 256, 4096, 1024, 0};
void mc_setup(void) { cfg_set(&CF); armas_cbuf_get_thread_global(); armas_ac_getenv(); }

typedef struct { aop_t op[3]; int hist[6], nh; const char *name; int maxthr, transient; } ctx_t;
enum { USE0, USE1, USE2, REL, INIT };     /* history steps */
static void body(void *arg)
{
    ctx_t *x = arg; armas_ac_handle_t h = 0; long live0 = mc_live();
    for (int i = 0; i < 3; i++) if (x->op[i].init) aop_reset(&x->op[i]);
    for (int s = 0; s < x->nh && !cs_failed(); s++) {
        if (x->hist[s] == INIT) {
            int rc = armas_ac_init(&h, x->name);
            if (rc || !h) { cs_fail("init", "armas_ac_init returned %d", rc); return; }
        } else if (x->hist[s] == REL) { armas_ac_release(h); h = 0; if (cs_live_threads() || cs_unjoined()) cs_fail("threads-left", "%d threads alive, %d not joined after release", cs_live_threads(), cs_unjoined()); }
        else {
            aop_t *o = &x->op[x->hist[s]];
            aop_reset(o); cs_write(aop_out(o)->buf, 8 * aop_out(o)->len);
            armas_conf_t cf = *armas_conf_default(); cf.accel = h; cf.error = 0;
            int rc = aop_call(o, &cf);
            if (rc != 0) cs_fail("rc", "call %d returned %d error %d", s, rc, cf.error);
            cs_read(aop_out(o)->buf, 8 * aop_out(o)->len);
            long d = aop_check(o);
            if (d >= 0) { gm_t *g = aop_out(o); cs_fail("value", "call %d: buffer index %ld (row %ld col %ld) is %.17g, sequential %.17g", s, d - g->off, (d - g->off) % g->m.step, (d - g->off) / g->m.step, g->buf[d], o->want[d]); }
            if (aop_operands_changed(o)) cs_fail("operand-changed", "call %d changed a read-only operand", s);
        }
    }
    if (cs_max_live() > x->maxthr) cs_fail("too-many-threads", "%d threads alive at once, limit %d", cs_max_live(), x->maxthr);
    if (!cs_failed() && mc_live() != live0) cs_fail("leak", "%ld allocations are still live after release", mc_live() - live0);
}
/* C05: the k-th thread creation (kind 0) or allocation (kind 1) made by the library during initialisation (where 0) or
 * the first call (where 1) fails */
static int f_kind, f_where, f_k;
static int fault(int on) { if (f_kind == 0) { cs_fail_create(on ? f_k : 0); return 0; } mc_fail_alloc(on ? f_k : 0); return 0; }
static int hit5;
static int use5(ctx_t *x, armas_ac_handle_t h, int i, int may_fail)
{
    aop_t *o = &x->op[i]; armas_conf_t cf = *armas_conf_default(); cf.accel = h; cf.error = 0;
    aop_reset(o); cs_write(aop_out(o)->buf, 8 * aop_out(o)->len); if (may_fail) fault(1);
    int rc = aop_call(o, &cf); int hit = f_kind == 0 ? cs_create_failed() > 0 : mc_alloc_failed() > 0; if (may_fail) { fault(0); hit5 |= hit; }
    cs_read(aop_out(o)->buf, 8 * aop_out(o)->len);
    if (rc < 0) { if (!may_fail || !hit) cs_fail("rc", "call returned %d error %d without a failure", rc, cf.error); else if (cf.error <= 0) cs_fail("no-error", "call returned %d, error in configuration %d", rc, cf.error); }
    else { long d = aop_check(o); if (d >= 0) cs_fail("value", "%s: buffer index %ld is %.17g, sequential %.17g", may_fail ? "call with failure succeeded" : "call after failure", d, aop_out(o)->buf[d], o->want[d]); }
    if (aop_operands_changed(o)) cs_fail("operand-changed", "a read-only operand changed"); return rc;
}
static void body5(void *arg)
{
    ctx_t *x = arg; armas_ac_handle_t h = 0; long live0 = mc_live();
    for (int i = 0; i < 3; i++) if (x->op[i].init) aop_reset(&x->op[i]);
    for (int round = 0; round < 2 && !cs_failed(); round++) { /* the second round is without failures */
        int f = round == 0; h = 0; if (f && f_where == 0) fault(1);
        int rc = armas_ac_init(&h, x->name); int hit = f_kind == 0 ? cs_create_failed() > 0 : mc_alloc_failed() > 0; if (f && f_where == 0) { fault(0); hit5 |= hit; }
        if (rc) { if (!(f && f_where == 0 && hit)) { cs_fail("init", "armas_ac_init returned %d without a failure", rc); return; }
            if (cs_live_threads() || cs_unjoined()) cs_fail("threads-left", "%d threads alive, %d not joined after failed initialisation", cs_live_threads(), cs_unjoined());
            if (mc_live() != live0) cs_fail("leak", "%ld allocations are still live after failed initialisation", mc_live() - live0); continue; }
        if (!h) { cs_fail("init", "no handle"); return; }
        use5(x, h, 0, f && f_where == 1); if (cs_failed()) return; use5(x, h, 1, 0); if (cs_failed()) return;
        armas_ac_release(h); if (cs_live_threads() || cs_unjoined()) cs_fail("threads-left", "%d threads alive, %d not joined after release", cs_live_threads(), cs_unjoined());
        if (!cs_failed() && mc_live() != live0) cs_fail("leak", "%ld allocations are still live after release", mc_live() - live0);
    }
}
static void (*thebody)(void *) = body;
static void explore(ctx_t *x, cs_bound_t *b)
{
    cs_stat_t st;
    mc_case_timeout(800);
    cs_explore(b, thebody, x, &st);
    mc_ops(st.points); mc_cmp(st.execs);
    if (getenv("CS_STAT")) { FILE *f = fopen(getenv("CS_STAT"), "a"); fprintf(f, "cores=%d opts=%x items=%ld nh=%d h1=%d execs=%ld\n", armas_ac_getenv()->max_cores, armas_ac_getenv()->options, (long)armas_ac_getenv()->num_items, x->nh, x->hist[1], st.execs); fclose(f); }
    if (st.capped) mc_capped();
    mc_outcome(mc_hash(&st, sizeof st.execs * 3, 5));
}
static void env_set(int cores, long items, int opts, double w)
{
    struct armas_ac_env *e = armas_ac_getenv();
    e->max_cores = cores; e->num_items = items; e->options = opts; e->weight = w;
}
#ifndef PROP
#define PROP 1
#endif
void mc_body(void)
{
    ctx_t x; memset(&x, 0, sizeof x);
#if PROP == 1
    int op = mc_choose("op", 4), cores = mc_range("cores", 1, 4);
    static const int FG[4][4] = {{0, ARMAS_TRANSA, ARMAS_TRANSB, ARMAS_TRANSA | ARMAS_TRANSB},
        {ARMAS_LEFT | ARMAS_UPPER, ARMAS_LEFT | ARMAS_LOWER | ARMAS_TRANSB, ARMAS_RIGHT | ARMAS_LOWER, ARMAS_RIGHT | ARMAS_UPPER | ARMAS_TRANSB},
        {ARMAS_LEFT | ARMAS_UPPER, ARMAS_LEFT | ARMAS_LOWER | ARMAS_TRANSA, ARMAS_RIGHT | ARMAS_LOWER, ARMAS_RIGHT | ARMAS_UPPER | ARMAS_TRANSA},
        {ARMAS_LEFT | ARMAS_UPPER, ARMAS_LEFT | ARMAS_LOWER | ARMAS_TRANSA, ARMAS_RIGHT | ARMAS_LOWER, ARMAS_RIGHT | ARMAS_UPPER | ARMAS_TRANSA}};
    int fl = FG[op][mc_choose("flags", 4)];
    static const int SH[3][2] = {{5, 17}, {17, 5}, {16, 16}};
    int sh = mc_choose("shape", 3);
    int hs = mc_choose("history", 2);
    cs_bound_t b = {99, 99, 2, 1, 0, 4000000, 0};
    b.part = mc_choose("part", b.nparts);
    if (!mc_begin()) return;
    int m = SH[sh][0], n = SH[sh][1];
    env_set(cores, 1 + m * n / cores, 0, 1.0);
    aop_make(&x.op[0], op, m, n, 3, fl, 2, -1, LP);
    aop_make(&x.op[1], (op + 1) % 4, 9, 8, 3, FG[(op + 1) % 4][sh], -1, 2, LP);
    x.name = ARMAS_AC_SIMPLE; x.maxthr = cores - 1;
    int H[2][4] = {{INIT, USE0, REL}, {INIT, USE0, USE1, REL}};
    memcpy(x.hist, H[hs], sizeof H[hs]); x.nh = 3 + hs;
    mc_note("%s flags=0x%x %dx%d cores=%d history=%d preempt=%d", opname[op], fl, m, n, cores, hs, b.preempt);
    explore(&x, &b);
#elif PROP == 5
    const char *AC[] = {ARMAS_AC_SIMPLE, ARMAS_AC_WORKERS, ARMAS_AC_TRANSIENT}; thebody = body5;
    int a = mc_choose("accelerator", 3), cores = mc_range("cores", 1, 3), op = mc_choose("op", 4), tiled = a ? mc_choose("tiled", 2) : 0, pol = a == 1 ? mc_choose("policy", 2) : 0;
    f_where = mc_choose("where", 2); f_kind = mc_choose("kind", 2); f_k = mc_range("fails", 1, f_kind == 0 ? cores + 1 : 14);
    cs_bound_t b = {mc_thorough && cores < 3 ? 2 : 1, 1, 0, 1, 0, 4000000, 0};
    if (!mc_begin()) return;
    static const int FG[4][2] = {{0, ARMAS_TRANSA | ARMAS_TRANSB}, {ARMAS_LEFT | ARMAS_UPPER, ARMAS_RIGHT | ARMAS_LOWER}, {ARMAS_LEFT | ARMAS_UPPER, ARMAS_RIGHT | ARMAS_LOWER | ARMAS_TRANSA}, {ARMAS_LEFT | ARMAS_UPPER, ARMAS_RIGHT | ARMAS_LOWER | ARMAS_TRANSA}};
    int m = tiled ? 8 : 9, n = 8;
    env_set(cores, tiled ? 4 : m * n / (cores + 1), (tiled ? ARMAS_OBLAS_TILED : 0) | (a == 1 ? pol ? ARMAS_OSCHED_RANDOM | ARMAS_OSCHED_TWO : ARMAS_OSCHED_ROUNDROBIN : 0), 1.0);
    aop_make(&x.op[0], op, m, n, 3, FG[op][0], 2, -1, LP); aop_make(&x.op[1], op, n, m, 2, FG[op][1], -1, 2, LP);
    x.name = AC[a]; x.maxthr = cores; 
    mc_note("%s %s cores=%d tiled=%d: %s %d fails during %s", AC[a], opname[op], cores, tiled, f_kind ? "allocation" : "thread creation", f_k, f_where ? "call" : "initialisation");
    explore(&x, &b);
#else
    int tr = PROP == 3;
    int cores = mc_range("workers", 1, 3);
    int opts = 0, nt = 1;
    static const int POL[] = {ARMAS_OSCHED_ROUNDROBIN, ARMAS_OSCHED_RANDOM, ARMAS_OSCHED_ROUNDROBIN | ARMAS_OSCHED_TWO, ARMAS_OSCHED_RANDOM | ARMAS_OSCHED_TWO};
    if (!tr) opts = POL[mc_choose("policy", 4)];
    int tiled = mc_choose("tiled", 2);
    if (tiled) opts |= ARMAS_OBLAS_TILED;
    static const int NTT[] = {1, 2, 4, 6, 9};
    nt = tiled ? NTT[mc_choose("tiles", tr ? 5 : 3)] : mc_range("tasks", 1, cores);
    int hs = nt == 9 ? 0 : mc_choose("history", 5);
    /* bounds by number of workers and length of the history */
    int long_ = hs == 1 || hs == 2;
    int dv = (cores == 3 ? 2 : 3) - (long_ ? 1 : 0);
    if (!tr && cores == 2 && nt == 4 && (opts & ARMAS_OSCHED_TWO)) dv = 2;
    if (tr && cores < 3 && (long_ ? nt <= 2 : nt <= 4)) dv++;
    if (mc_thorough) dv = (cores == 3 ? 2 : cores == 2 ? 3 : 4) - long_ + (tr && cores < 3);
    cs_bound_t b = {2, dv, 1, 1, 0, 20000000, 0};
    if (mc_thorough) { b.preempt = 3; b.deviate++; }
    b.nparts = hs >= 3 ? 1 : 8; b.part = mc_choose("part", b.nparts);
    if (!mc_begin()) return;
    int m = 8, n = 8; long items = 64 / nt;
    if (tiled) { m = nt == 1 ? 3 : nt >= 6 ? 12 : 8; n = nt == 2 ? 3 : nt == 6 ? 8 : m; items = 4; }
    env_set(cores, items, opts, 1.0);
    aop_make(&x.op[0], GEMM, m, n, 2, 0, 2, -1, LP);
    aop_make(&x.op[1], GEMM, n, m, 3, ARMAS_TRANSA | ARMAS_TRANSB, -1, 2, LP);
    aop_make(&x.op[2], SYMM, m, n, 0, ARMAS_LEFT | ARMAS_UPPER, 1, 1, LP);
    x.name = tr ? ARMAS_AC_TRANSIENT : ARMAS_AC_WORKERS; x.maxthr = cores;
    static const int H[5][6] = {{INIT, USE0, REL, -1}, {INIT, USE0, USE1, REL, -1}, {INIT, USE0, REL, INIT, USE1, REL}, {INIT, REL, -1}, {INIT, USE2, REL, INIT, REL, -1}};
    for (x.nh = 0; x.nh < 6 && H[hs][x.nh] >= 0; x.nh++) x.hist[x.nh] = H[hs][x.nh];
    mc_note("mult %dx%d %s workers=%d options=0x%x items=%ld history=%d preempt=%d deviate=%d spurious=%d", m, n, x.name, cores, opts, items, hs, b.preempt, b.deviate, b.spurious);
    explore(&x, &b);
#endif
}
