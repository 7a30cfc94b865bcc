/* C04: partitioning of the accelerated level-3 calls, every shape x threads x policy */
#include "mc.h"
#include "cfg.h"
#include "accop.h"
const char *mc_name = "part";
static const cfg_t CF = {64, 64, 160, 64, 1024, 256, 4096, 1024, 0};
void mc_setup(void) { cfg_set(&CF); armas_cbuf_get_thread_global(); armas_ac_getenv(); }
static void one(int kind, int op, int m, int n, int flags, int cores, long items, int opts, double w)
{
    if (!mc_begin()) return;
    struct armas_ac_env *e = armas_ac_getenv();
    e->max_cores = cores; e->num_items = items; e->options = opts; e->weight = w;
    mc_note("%s %s m=%d n=%d flags=0x%x cores=%d items=%ld options=0x%x weight=%g", kind == 0 ? "simple" : kind == 1 ? "workers" : "transient", opname[op], m, n, flags, cores, items, opts, w);
    aop_t o; aop_make(&o, op, m, n, 3, flags, 2, -1, LP);
    long live = mc_live();
    armas_ac_handle_t h = 0;
    int rc = armas_ac_init(&h, kind == 0 ? ARMAS_AC_SIMPLE : kind == 1 ? ARMAS_AC_WORKERS : ARMAS_AC_TRANSIENT);
    if (rc || !h) { mc_fail("init", "armas_ac_init returned %d", rc); return; }
    armas_conf_t cf = *armas_conf_default(); cf.accel = h;
    rc = aop_call(&o, &cf); mc_ops(1);
    armas_ac_release(h);
    if (rc) { mc_fail("rc", "returned %d error %d, sequential %d", rc, cf.error, o.wantrc); return; }
    gm_t *g = aop_out(&o);
    long d = aop_check(&o);
    if (d >= 0) { mc_fail("value", "buffer index %ld (row %ld col %ld) is %.17g, sequential %.17g", d - g->off, (d - g->off) % g->m.step, (d - g->off) / g->m.step, g->buf[d], o.want[d]); return; }
    if (aop_operands_changed(&o)) mc_fail("operand-changed", "a read-only operand changed");
    if (mc_live() != live) mc_fail("leak", "%ld allocations left", mc_live() - live);
    mc_cmp(m * n); mc_outcome(mc_hash(o.want, sizeof(double) * g->len, op));
}
static const int GF[] = {0, ARMAS_TRANSA, ARMAS_TRANSB, ARMAS_TRANSA | ARMAS_TRANSB, ARMAS_CTRANSA, ARMAS_CTRANSB};
static const int SF[] = {ARMAS_LEFT | ARMAS_UPPER, ARMAS_LEFT | ARMAS_LOWER | ARMAS_TRANSB, ARMAS_RIGHT | ARMAS_UPPER, ARMAS_RIGHT | ARMAS_LOWER | ARMAS_TRANSB};
static const int TF[] = {ARMAS_LEFT | ARMAS_UPPER, ARMAS_LEFT | ARMAS_LOWER | ARMAS_TRANSA, ARMAS_RIGHT | ARMAS_LOWER, ARMAS_RIGHT | ARMAS_UPPER | ARMAS_TRANSA, ARMAS_UPPER, ARMAS_LOWER | ARMAS_TRANSA | ARMAS_UNIT, ARMAS_RIGHT | ARMAS_UPPER | ARMAS_UNIT};
static int pickflags(int op) { return op == GEMM ? mc_pickv("flags", GF, ITEM(GF)) : op == SYMM ? mc_pickv("flags", SF, ITEM(SF)) : mc_pickv("flags", TF, ITEM(TF)); }
void mc_body(void)
{
    int big = mc_thorough;
    switch (mc_choose("suite", 4)) {
    case 0: {  /* simple: all small shapes, 1..8 blocks */
        int op = mc_choose("op", 4), c = mc_range("cores", 1, 8);
        int m = mc_range("m", 1, big ? 24 : 13), n = mc_range("n", 1, big ? 24 : 13);
        int fl = pickflags(op);
        one(0, op, m, n, fl, c, big ? MC_PICK("items", 1, 9) : 1 + (m * n) / 9, 0, 1);
        break; }
    case 1: {  /* workers, blocked */
        int c = mc_range("cores", 1, big ? 8 : 5), m = mc_range("m", 1, big ? 24 : 14), n = mc_range("n", 1, big ? 24 : 14);
        one(1 + mc_choose("transient", 2), GEMM, m, n, big ? pickflags(GEMM) : MC_PICK("flags", 0, ARMAS_CTRANSA, ARMAS_TRANSB, ARMAS_TRANSA | ARMAS_CTRANSB), c, MC_PICK("items", 1, 40), ARMAS_OBLAS_BLOCKED | (big ? MC_PICK("sched", ARMAS_OSCHED_ROUNDROBIN, ARMAS_OSCHED_RANDOM | ARMAS_OSCHED_TWO) : ARMAS_OSCHED_ROUNDROBIN), 1);
        break; }
    case 2: {  /* workers, tiled: every tile width */
        int wb = mc_range("tile", 1, big ? 20 : 12), m = mc_range("m", 1, big ? 24 : 12), n = mc_range("n", 1, big ? 24 : 12);
        one(1 + mc_choose("transient", 2), GEMM, m, n, big ? pickflags(GEMM) : MC_PICK("flags", 0, ARMAS_TRANSA | ARMAS_TRANSB), 2, wb, ARMAS_OBLAS_TILED | ARMAS_OSCHED_ROUNDROBIN, 1);
        break; }
    case 3: {  /* larger shapes, weights, operations the workers do not accelerate */
        int kind = mc_choose("kind", 3), op = mc_choose("op", 4);
        int m = MC_PICK("m", 1, 3, 33, 64, 65, 130), n = MC_PICK("n", 2, 31, 63, 64, 100, 129);
        int fl = pickflags(op);
        one(kind, op, m, n, fl, MC_PICK("cores", 2, 3, 7), MC_PICK("items", 64, 1000), kind ? MC_PICK("pol", ARMAS_OBLAS_BLOCKED, ARMAS_OBLAS_TILED | ARMAS_OSCHED_ROUNDROBIN, 0) : 0, MC_PICKD("weight", 1, 0.5));
        break; }
    }
}
