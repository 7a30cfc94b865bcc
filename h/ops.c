/* one table of the public dense operations, five questions:
 * FAM 11 workspace queries (C11), 24 invalid arguments (C24), 30 blocking configurations (C30),
 * 31 operands and surroundings (C31), 5 allocation failures (C05), 32 two application threads (C32) */
#include "mc.h"
#include "cfg.h"
#include "vecs.h"
#include "work.h"
#define S_(x) #x
#define SS_(x) S_(x)
const char *mc_name = "ops" SS_(FAM);
void mc_setup(void) {}
#define EXPECT(key, cond, ...) do { mc_cmp(1); if (!(cond)) { mc_fail(key, __VA_ARGS__); return; } } while (0)
static int thorough(void) { static int t = -1; if (t < 0) { const char *e = getenv("VERIF_TIER"); t = e && !strcmp(e, "thorough"); } return t; }
enum { SC = 1, EX = 2, W = 4, RND = 8, LA = 16, NN = 32, XT = 64, TRI_ = 128 /* next 3 bits: operand + 1 */, M_ = 2048 /* 5 bits */, NZ_ = 65536, NOCF = 1 << 26 /* no configuration block: no error reports to check */ };
#define TRI(i) (TRI_ * ((i) + 1))
#define M(i) (M_ << (i))
#define NZ(i) (NZ_ << (i))
typedef struct { char t, a, b, suf; } opd_t;
struct op; typedef struct { const struct op *op; int ncf, fl, m, n, k, nx, w, pi; opd_t d[6]; gm_t g[6]; armas_dense_t *x[6]; armas_pivot_t P, *PP; int plen; int pold[128]; armas_wbuf_t *wb; armas_conf_t cf; double s[2]; int rc; } ctx;
#define X0 o->x[0]
#define X1 o->x[1]
#define X2 o->x[2]
#define X3 o->x[3]
#define X4 o->x[4]
#define PV o->PP
#define CF (o->ncf ? 0 : &o->cf)
/* number of reflectors, less than there are columns */
#define NK(X, less) ((X) && armas_size(X) > (less) ? (int)armas_size(X) - (less) : (X) ? (int)armas_size(X) : 0)
static DTYPE val_ij(int i, int j) { return 3 * i - 2 * j + 1; }
static DTYPE val_3(void) { return 3; }
static DTYPE fun_1(DTYPE x) { return 2 * x + 1; }
static DTYPE fun_2(DTYPE x, void *p) { return 2 * x + *(DTYPE *)p; }
static int sum_it(DTYPE x, void *p) { ((DTYPE *)p)[0] += x; return 0; }
#define WF(f, ...) (o->w ? f##_w(__VA_ARGS__, o->wb, CF) : f(__VA_ARGS__, CF))
#define FL(...) {__VA_ARGS__}, (int)(sizeof((int[]){__VA_ARGS__}) / sizeof(int))
typedef struct op { const char *name, *spec; int cons, opt, fl[8], nfl; void (*prep)(ctx *); int (*call)(ctx *); } op_t;
static armas_conf_t dcf(void) { armas_conf_t c = *armas_conf_default(); c.error = 0; return c; }
#define PREP(n, e) static void p_##n(ctx *o) { armas_conf_t c = dcf(); int rc = (e); if (rc < 0) mc_fail("prepare", "%s failed (%d, error %d)", #n, rc, c.error); }
PREP(lu, armas_lufactor(X1, PV, &c)) PREP(lu0, armas_lufactor(X0, PV, &c)) PREP(chol, armas_cholesky(X1, o->fl, &c)) PREP(chol0, armas_cholesky(X0, o->fl, &c)) PREP(cholp, armas_cholfactor(X1, PV, o->fl, &c))
PREP(bk, armas_bkfactor(X1, PV, o->fl, &c)) PREP(ldl, armas_ldlfactor(X1, PV, o->fl, &c)) PREP(ldl0, armas_ldlfactor(X0, PV, o->fl, &c))
PREP(qr, armas_qrfactor(X1, X2, &c)) PREP(qr0, armas_qrfactor(X0, X1, &c)) PREP(lq, armas_lqfactor(X1, X2, &c)) PREP(lq0, armas_lqfactor(X0, X1, &c)) PREP(ql, armas_qlfactor(X1, X2, &c)) PREP(ql0, armas_qlfactor(X0, X1, &c)) PREP(rq, armas_rqfactor(X1, X2, &c)) PREP(rq0, armas_rqfactor(X0, X1, &c))
PREP(hess, armas_hessreduce(X1, X2, &c)) PREP(trd, armas_trdreduce(X1, X2, o->fl & (ARMAS_LOWER|ARMAS_UPPER), &c)) PREP(trd0, armas_trdreduce(X0, X1, o->fl, &c))
PREP(hm, armas_qrfactor(X2, X1, &c))
static armas_dense_t *tmpv(int n) { gm_t *t = mc_mem(sizeof *t); gm_new(t, n > 0 ? n : 1, 1, LT); return &t->m; }
PREP(bdq, armas_bdreduce(X1, X2, tmpv(armas_size(X2)), &c)) PREP(bdp, armas_bdreduce(X1, tmpv(armas_size(X2)), X2, &c)) PREP(bdq0, armas_bdreduce(X0, X1, tmpv(armas_size(X1)), &c)) PREP(bdp0, armas_bdreduce(X0, tmpv(armas_size(X1)), X1, &c))
static void sec(armas_dense_t *d, armas_dense_t *z) { int n = armas_size(d); for (int i = 0; i < n; i++) { armas_set_at(d, i, 1.0 + i + 0.125 * (i & 1)); armas_set_at(z, i, 1 / sqrt((double)n)); } }
static void p_sec1(ctx *o) { sec(X1, X2); } static void p_sec3(ctx *o) { sec(X3, X4); }
#define OP(n, spec, cons, opt, fl, prep, call) static int c_##n(ctx *o) { return call; }
#include "ops.inc"
#undef OP
#define OP(n, spec, cons, opt, fl, prep, call) {#n, spec, cons, opt, fl, prep, c_##n},
static const op_t OPS[] = {
#include "ops.inc"
};
enum { NOPS = sizeof OPS / sizeof *OPS };
static int dim(char c, int m, int n, int k) { switch (c) { case 'm': return m; case 'n': return n; case 'k': return k; case 's': return m < n ? m : n; case 'a': return n - 1; } return c - '0'; }
static void parse(ctx *o, const op_t *op, int fl)
{
    memset(o, 0, sizeof *o); o->op = op; o->fl = fl; o->pi = -1; const char *s = op->spec;
    for (; *s; o->nx++) { opd_t *d = &o->d[o->nx]; d->t = *s++; d->a = *s++; d->b = 0; if (strchr("oi", d->t)) d->b = *s++; if (*s == '+' || *s == '~' || *s == '?') d->suf = *s++; while (*s == ' ') s++; if (d->t == 'P' || d->t == 'p') o->pi = o->nx; }
}
static int ismat(opd_t *d) { return d->t == 'o' || d->t == 'i'; }
static int ispiv(opd_t *d) { return d->t == 'P' || d->t == 'p'; }
static int isout(opd_t *d) { return d->t == 'o' || d->t == 'w' || d->t == 'T'; }
static int shape_ok(const op_t *op, int m, int n) { return op->cons == 'g' ? m >= n : op->cons == 'l' ? m <= n : op->cons == 'h' ? n >= 2 : 1; }
/* element of an operand in another triangle than the one the operation refers to */
static int tri(const op_t *op) { return (op->opt / TRI_ & 7) - 1; }
static int unref(ctx *o, int q, int i, int j) { return q == tri(o->op) && ((o->fl & ARMAS_UPPER ? i > j : i < j) || (i == j && (o->fl & ARMAS_UNIT))); }
static double fillv(ctx *o, int q, int i, int j)
{
    uint64_t s = (q + 1) * 7919 + i * 131 + j * 17 + 5; int v = mc_rnd(&s) ; v = mc_rnd(&s); if (v < 0) v = -v; int mx = o->m > o->n ? o->m : o->n; if (o->k > mx) mx = o->k;
    if (o->op->opt & RND) { double x = (v % 20011) / 10005.0 - 1; return o->op->opt & NN ? fabs(x) + 0.01 : x; }
    if (o->op->opt & (NZ_ << q)) return 1 + v % 4; int x = v % 7 - 3; if (!(o->op->opt & EX) && o->fl & ARMAS_UNIT && q == tri(o->op)) return x / 8.0;
    return ismat(&o->d[q]) && i == j && q == (tri(o->op) >= 0 ? tri(o->op) : -1) ? 4 * mx + 8 + i : x;
}
/* build operands with surroundings filled with the given value */
static void build(ctx *o, int m, int n, int k, int lay, int prep, double around)
{
    o->m = m; o->n = n; o->k = k; cfg_set(&CFG_DEFAULT); o->cf = dcf(); o->s[0] = o->s[1] = 0;
    for (int q = 0; q < o->nx; q++) {
        opd_t *d = &o->d[q]; int r = dim(d->a, m, n, k);
        if (ispiv(d)) { armas_pivot_init(&o->P, r); o->PP = &o->P; o->plen = r; for (int i = 0; i < r; i++) armas_pivot_set(&o->P, i, i + 1); continue; }
        if (ismat(d)) gm_new(&o->g[q], r, dim(d->b, m, n, k), lay ? LP : LT); else if (d->t == 't' || d->t == 'T') gm_new(&o->g[q], r, 1, lay ? LP : LT); else gv_new(&o->g[q], r, lay == 0 ? VC : lay == 1 ? VR : VCP);
        gm_t *g = &o->g[q]; o->x[q] = &g->m; for (int j = 0; j < g->m.cols; j++) for (int i = 0; i < g->m.rows; i++) G(g, i, j) = ismat(d) ? fillv(o, q, i, j) : fillv(o, q, i + j, 0);
    }
    if (prep && o->op->prep) o->op->prep(o);
    for (int q = 0; q < o->nx; q++) { gm_t *g = &o->g[q]; if (ispiv(&o->d[q])) { for (int i = 0; i < o->plen; i++) o->pold[i] = armas_pivot_get(&o->P, i); continue; }
        for (int j = 0; j < g->m.cols; j++) for (int i = 0; i < g->m.rows; i++) if (unref(o, q, i, j)) G(g, i, j) = around;
        if (around == around) { char *in = calloc(g->len + 1, 1); for (int j = 0; j < g->m.cols; j++) for (int i = 0; i < g->m.rows; i++) in[g->off + (long)j * g->m.step + i] = 1; for (long p = 0; p < g->len; p++) if (!in[p]) g->buf[p] = around; free(in); }
        gm_snap(g); }
}
static void done(ctx *o) { if (o->PP || o->plen) armas_pivot_release(&o->P); o->plen = 0; o->PP = 0; }
/* operands an operation must leave alone: 1 ok */
static int untouched(ctx *o, int everything, const char *when)
{
    for (int q = 0; q < o->nx; q++) { opd_t *d = &o->d[q]; mc_cmp(1);
        if (ispiv(d)) { if (everything || d->t == 'p') for (int i = 0; i < o->plen; i++) if (armas_pivot_get(&o->P, i) != o->pold[i]) { mc_fail("operand-changed", "%s: pivot element %d changed", when, i); return 0; } continue; }
        gm_t *g = &o->g[q]; if (!g->buf) continue;
        if (everything || !isout(d) && d->t != 'x') { if (gm_diff_any(g) >= 0) { mc_fail("operand-changed", "%s: operand %d (%c) changed", when, q, d->t); return 0; } continue; }
        if (gm_diff_outside(g) >= 0) { mc_fail("outside-view", "%s: memory around operand %d changed", when, q); return 0; }
        if (q == tri(o->op)) for (int j = 0; j < g->m.cols; j++) for (int i = 0; i < g->m.rows; i++) if (unref(o, q, i, j) && !mc_biteq(G(g, i, j), S(g, i, j))) { mc_fail("unreferenced-changed", "%s: element (%d,%d) of operand %d, not to be referenced, changed", when, i, j, q); return 0; } }
    return 1;
}
typedef struct { int n; double v[4096]; } out_t;
static out_t outslot[2]; static int outn; /* the first result is kept as reference, the last one beside it */
static out_t *outs(ctx *o, int exact)
{
    out_t *u = &outslot[outn]; outn = 1; u->n = 0;
    #define ADD(x) do { if (u->n < 4096) u->v[u->n++] = (x); } while (0)
    for (int q = 0; q < o->nx; q++) { opd_t *d = &o->d[q]; if (d->t == 'P') { for (int i = 0; i < o->plen; i++) ADD(armas_pivot_get(&o->P, i)); continue; } if (!isout(d) || (!exact && o->op->opt & (M_ << q))) continue; gm_t *g = &o->g[q];
        for (int j = 0; j < g->m.cols; j++) for (int i = 0; i < g->m.rows; i++) if (!unref(o, q, i, j)) ADD(G(g, i, j)); }
    ADD(o->s[0]); return u;
}
static int same(const out_t *a, const out_t *b, int exact, const char *what)
{
    double mx = 0; mc_cmp(a->n); for (int i = 0; i < a->n; i++) if (fabs(a->v[i]) < 1e80 && fabs(a->v[i]) > mx) mx = fabs(a->v[i]);
    for (int i = 0; i < a->n; i++) if (exact ? !mc_biteq(a->v[i], b->v[i]) : !(fabs(a->v[i] - b->v[i]) <= 1e-10 * (1 + mx))) if (!(exact == 2 && a->v[i] == b->v[i])) { mc_fail("result", "%s: output element %d is %.17g, expected %.17g", what, i, b->v[i], a->v[i]); return 0; }
    return 1;
}
static int run(ctx *o) { mc_ops(1); return o->rc = o->op->call(o); }
static int pickop(ctx **po, int need)
{
    int nl = 0, list[NOPS]; for (int i = 0; i < NOPS; i++) if ((OPS[i].opt & need) == need && !((FAM == 24 || FAM == 5) && (OPS[i].opt & NOCF)) && (!getenv("OPS_ONLY") || !strcmp(getenv("OPS_ONLY"), OPS[i].name))) list[nl++] = i; /* OPS_ONLY: development aid */
    if (!nl) exit(0);
    const op_t *op = &OPS[list[mc_choose("operation", nl)]]; int fl = op->fl[mc_choose("flags", op->nfl)]; static ctx C[2]; parse(&C[0], op, fl); parse(&C[1], op, fl); *po = C; return 1;
}
static void label(ctx *o, const char *x) { mc_note("%s (%s) m=%d n=%d k=%d flags=0x%x %s", o->op->name, o->op->spec, o->m, o->n, o->k, o->fl, x); }
#if FAM == 24
/* 1 conforming (dimensions in mm,nn,kk), 0 not conforming, 2 either */
static int legal(ctx *o, const int *r, const int *c, int *mm, int *nn, int *kk)
{
    int best = 0; const char *nm = o->op->name;
    if (!strncmp(nm, "houseapply_", 11) && (r[0] == 1 || c[0] == 1)) return 2; /* vector operand: either orientation, no scratch */
    #define VEC(q) (r[q] == 1 || c[q] == 1)
    if (!strcmp(nm, "copy") && VEC(0) && VEC(1)) return 2; /* copies as many elements as the shorter one has */
    if ((!strncmp(nm, "mcopy", 5) || !strncmp(nm, "mplus", 5)) && ((VEC(0) && VEC(1) && r[0] * c[0] == r[1] * c[1]) || r[1] * c[1] == 1)) return 2; /* two vectors: any orientation; scalar operand */
    if (strstr(nm, "_diag_") && (VEC(0) || !VEC(1))) return 2; /* vector target; diagonal of a matrix */
    if (!strncmp(nm, "bdmult_q", 8) && r[1] < c[1]) return 2; /* the row names one of the two orientations the operation accepts */
    if (!strncmp(nm, "bdbuild", 7) && r[0] < c[0]) return 2;
    if (!strcmp(nm, "svd") && r[1] < c[1]) return 2;
    if (!strcmp(nm, "svd_w") && r[1] > c[1]) return 2;
    if (!strncmp(nm, "houseapply_", 11) && r[1] == 0) return 2; /* unscaled reflector */
    if (!strncmp(nm, "svd_", 4) && nm[4] != 'w' || !strncmp(nm, "svdw", 4)) { /* thin and full, tall and wide are all accepted forms */
        int a = o->nx - 1, k_ = r[a] < c[a] ? r[a] : c[a], ok_ = r[a] > 0 && (r[0] == 1 || c[0] == 1) && r[0] * c[0] >= k_, q = 1;
        if (o->fl & ARMAS_WANTU) { ok_ = ok_ && r[q] == r[a] && (c[q] == k_ || c[q] == r[a]); q++; }
        if (o->fl & ARMAS_WANTV) ok_ = ok_ && c[q] == c[a] && (r[q] == k_ || r[q] == c[a]);
        if (ok_) best = 2; }
    for (int q = 0; q < o->nx; q++) if (strchr("tT", o->d[q].t) && r[q] == 1 && c[q] > 1) return 2; /* scalar factors in a row */
    for (int m = 1; m <= 4; m++) for (int n = 1; n <= 4; n++) for (int k = 1; k <= 4; k++) {
        if (!shape_ok(o->op, m, n)) continue; int ok = 1;
        for (int q = 0; q < o->nx && ok; q++) { opd_t *d = &o->d[q]; int a = dim(d->a, m, n, k);
            if (r[q] == 0) { ok = (ispiv(d) || d->suf == '?') && ok ? 2 : 0; continue; }
            int x; if (ispiv(d)) x = r[q] == a ? 1 : d->suf == '+' && r[q] > a ? 2 : 0;
            else if (ismat(d)) { int b = dim(d->b, m, n, k); x = r[q] == a && c[q] == b ? 1 : d->suf && r[q] >= a && c[q] >= b ? 2 : 0; }
            else { int l = r[q] == 1 ? c[q] : c[q] == 1 ? r[q] : -1; x = l < 0 ? 0 : l == a ? 1 : d->suf && l > a ? 2 : d->suf == '~' && l == a - 1 ? 2 : 0; if (x == 1 && (d->t == 't' || d->t == 'T') && c[q] != 1) x = 2; }
            ok = x == 0 ? 0 : x == 2 || ok == 2 ? 2 : 1; }
        if (ok == 1) { *mm = m; *nn = n; *kk = k; return 1; } if (ok == 2) best = 2;
    }
    /* the constraint itself may be what fails: orders below the minimum are not judged */
    if (o->op->cons == 'h') for (int q = 0; q < o->nx; q++) if (strchr("na", o->d[q].a) && r[q] && r[q] * c[q] <= 1) best = best ? best : 2;
    return best;
}
void mc_body(void)
{
    ctx *o; pickop(&o, 0); int nx = o->nx, r[6], c[6], mx = nx <= 2 && thorough() ? 4 : nx >= 4 && !thorough() ? 2 : 3, lay, err0;
    for (int q = 0; q < nx; q++) { static const char *NM[] = {"shape0", "shape1", "shape2", "shape3", "shape4", "shape5"}; const char *nm = NM[q]; if (ispiv(&o->d[q])) { r[q] = mc_choose(nm, mx + 1); c[q] = 1; continue; } if (o->d[q].t == 'i' && o->d[q].a == '1') { r[q] = mc_choose(nm, 2); c[q] = 1; continue; } int s = mc_choose(nm, mx * mx + (o->op->opt & LA ? 1 : 0)); r[q] = s == mx * mx ? 0 : 1 + s / mx; c[q] = s == mx * mx ? 0 : 1 + s % mx; }
    err0 = mc_choose("earlier-error", 2);
    if (!mc_begin()) return;
    int m = 0, n = 0, k = 0, want = legal(o, r, c, &m, &n, &k); char txt[80] = ""; for (int q = 0; q < nx; q++) snprintf(txt + strlen(txt), 80 - strlen(txt), " %dx%d", r[q], c[q]); lay = (r[0] + c[nx - 1]) & 1;
    o->cf = dcf(); cfg_set(&CFG_DEFAULT); if (want != 1) { m = n = k = 2; } o->m = m; o->n = n; o->k = k;
    mc_note("%s (%s) flags=0x%x shapes%s", o->op->name, o->op->spec, o->fl, txt);
    for (int q = 0; q < nx; q++) { opd_t *d = &o->d[q]; if (ispiv(d)) { o->plen = r[q]; if (r[q]) { armas_pivot_init(&o->P, r[q]); o->PP = &o->P; for (int i = 0; i < r[q]; i++) armas_pivot_set(&o->P, i, i + 1); } continue; }
        if (r[q] == 0) { o->x[q] = 0; o->g[q].buf = 0; continue; }
        gm_t *g = &o->g[q]; gm_new(g, r[q], c[q], lay ? LP : LT); o->x[q] = &g->m; for (int j = 0; j < c[q]; j++) for (int i = 0; i < r[q]; i++) G(g, i, j) = ismat(d) ? fillv(o, q, i, j) + (tri(o->op) < 0 && i == j ? 8 : 0) : fillv(o, q, i + j, 0); }
    if (want == 1 && o->op->prep) o->op->prep(o);
    for (int q = 0; q < nx; q++) if (ispiv(&o->d[q])) { for (int i = 0; i < o->plen; i++) o->pold[i] = armas_pivot_get(&o->P, i); } else if (o->x[q]) gm_snap(&o->g[q]);
    o->cf.error = err0 ? ARMAS_EIMP : 0; armas_cbuf_get_thread_global(); long live0 = mc_live(); run(o); int err = o->cf.error; mc_outcome(err * 7 + (o->rc < 0));
    if (want == 1) { if (o->op->opt & SC) { if (!err0) EXPECT("reject", err == 0, "conforming call sets error %d", err); } else EXPECT("reject", o->rc >= 0, "conforming call returned %d, error %d", o->rc, err); if (!untouched(o, 0, "conforming call")) return; }
    else if (want == 0) {
        if (!untouched(o, 1, "non-conforming call")) return;
        if (!(o->op->opt & SC)) EXPECT("accept", o->rc < 0, "non-conforming call returned %d, error %d", o->rc, err);
        EXPECT("no-error", err > 0, "non-conforming call returned %d, error in configuration is %d", o->rc, err);
        o->cf.error = err0 ? 0 : ARMAS_EIMP; run(o); EXPECT("stale-error", o->cf.error == err, "error is %d, after an earlier error %d it is %d", err, ARMAS_EIMP, o->cf.error);
    } else if (!untouched(o, 0, "call")) return;
    EXPECT("leak", mc_live() == live0, "%ld blocks leaked", mc_live() - live0); done(o);
}
#else
static const int SZ[][3] = {{1, 1, 1}, {2, 2, 2}, {3, 3, 2}, {2, 3, 1}, {3, 2, 4}, {5, 4, 3}, {4, 5, 3}, {5, 5, 5}, {7, 7, 2}, {9, 7, 8}, {7, 9, 5}, {12, 12, 5}, {13, 11, 9}, {11, 13, 12}, {1, 5, 3}, {6, 1, 2}, {17, 17, 9}, {19, 8, 17}, {8, 19, 6}, {25, 25, 10},
    /* last: larger than the least block size (32) that reduced workspace is used for */
    {53, 53, 50}, {57, 52, 51}, {52, 57, 50}, {113, 113, 4}};
enum { NBIG = 4, NSZ = sizeof SZ / sizeof *SZ - NBIG };
static const cfg_t BC[] = { {64, 64, 160, 64, 1024, 256, 256 * 1024, 32 * 1024, 0}, {64, 64, 160, 2, 1024, 256, 4096, 1024, 0}, {4, 4, 8, 3, 2, 2, 4096, 1024, 0}, {8, 4, 16, 4, 3, 3, 8192, 1024, 0}, {64, 64, 160, 0, 1024, 256, 256 * 1024, 32 * 1024, 0}, {64, 64, 160, 48, 1024, 256, 256 * 1024, 32 * 1024, 0} };
enum { NBC = sizeof BC / sizeof *BC };
static int needmask = 0;
#if FAM == 11
static void body(ctx *o, int sz, int lay, int cfg)
{
    ctx *p = o + 1; int m = SZ[sz][0], n = SZ[sz][1], k = SZ[sz][2]; out_t *ref, *res; char t[64]; mc_case_timeout(60); outn = 0;
    build(p, m, n, k, lay, 1, NAN); cfg_set(&BC[cfg]); label(p, ""); run(p); if (mc_failed()) return; EXPECT("own", p->rc >= 0, "form without workspace returned %d, error %d", p->rc, p->cf.error); ref = outs(p, 0); done(p);
    /* query: reports a size, touches nothing */
    build(o, m, n, k, lay, 1, NAN); cfg_set(&BC[cfg]); armas_wbuf_t q = ARMAS_WBNULL; o->w = 1; o->wb = &q; long a0 = mc_allocs(); run(o); size_t need = q.bytes;
    EXPECT("query", o->rc == 0 && q.offset == 0, "query returned %d (offset %zu)", o->rc, q.offset); if (!untouched(o, 1, "query")) return; done(o); (void)a0; (void)t;
    size_t lo = 0; 
    for (int st = 0; ; st++) {
        /* exactly what was asked for, more, and every smaller size */
        size_t b = st == 0 ? need : st == 1 ? need + 24 : st == 2 ? 0 : st == 3 ? need * 3 + 64 : (lo = st == 4 ? 1 : sz < NSZ && (thorough() || need <= 1024) ? (lo < 8 ? 8 : lo + 8) : lo < 8 ? 8 : lo < need / 4 && sz < NSZ ? lo + 8 : lo + (need / (sz < NSZ ? 24 : sz < NSZ + 3 ? 12 : 15) + 8) / 8 * 8);
        if (st >= 4 && b >= need) break; if (st == 2) { armas_wbuf_t *nw = 0; build(o, m, n, k, lay, 1, NAN); cfg_set(&BC[cfg]); o->w = 1; o->wb = nw; run(o); }
        else { build(o, m, n, k, lay, 1, NAN); cfg_set(&BC[cfg]); o->w = 1; if (b == 0) { done(o); continue; } o->wb = work(b); run(o); size_t off = o->wb->offset; workdone(); if (mc_failed()) { label(o, "workspace"); mc_note(" %zu bytes of %zu", b, need); return; } EXPECT("offset", off == 0, "workspace of %zu bytes: %zu bytes left reserved", b, off); }
        if (st == 2) b = 0;
        if (o->rc >= 0) { if (!untouched(o, 0, "call with workspace")) return; res = outs(o, 0); char w[64]; snprintf(w, sizeof w, "workspace of %zu bytes (query: %zu)", b, need); if (!same(ref, res, 0, w)) return; }
        else { EXPECT("sufficient", (b < need || need == 0) && st != 0, "workspace of %zu bytes (query: %zu): status %d, error %d", b, need, o->rc, o->cf.error); EXPECT("work-error", o->cf.error == ARMAS_EWORK || (b == 0 && o->cf.error > 0), "workspace of %zu bytes (query: %zu): status %d, error %d", b, need, o->rc, o->cf.error);
            char w[64]; snprintf(w, sizeof w, "rejected workspace of %zu bytes (query: %zu)", b, need); if (!untouched(o, 1, w)) return; }
        mc_outcome(o->rc < 0 ? 1 : mc_hash(ref->v, ref->n * 8, b)); done(o);
    }
}
#elif FAM == 30
typedef struct { cfg_t c; int buf, opt; } bc_t;
static void body(ctx *o, int sz, int lay, int cfg)
{
    /* full product of the lists below; lb matters to LAPACK level operations only, the algorithm choice to the others */
    static const int LBS[] = {2, 5, 8, 1, 16, 64, 3, 4, 7, 13, 31, 100}, OPT[] = {0, ARMAS_ONAIVE, ARMAS_ORECURSIVE}, TH[][2] = {{1024, 256}, {1, 1}, {5, 3}};
    static const long CL[][2] = {{4096, 1024}, {262144, 32768}, {6144, 4096}, {16384, 1500}}; ctx *p = o + 1; int m = SZ[sz][0], n = SZ[sz][1], k = SZ[sz][2]; mc_case_timeout(60); outn = 0;
    static const int BQ[2][3] = {{2, 64, 0}, {1, 13, 200}};
    int la = (o->op->opt & LA) != 0, exact = (o->op->opt & EX) ? 2 : 0, T = thorough(), nlb = la ? (T ? 12 : 6) : 3, ncl = T ? 3 : 2, nth = T ? 2 : 1, nb3 = T && !la ? 3 : 2; cfg_t base = CFG_DEFAULT; base.lb = 0; out_t *ref = 0; long N = (long)nlb * nb3 * nb3 * nb3 * ncl * nth * (T ? 3 : 2) ;
    for (long t = -1; t <= N; t++) { /* the last one: no configuration block */
        cfg_t c = base; int ub = 0, opt = 0; 
        if (t >= 0 && t < N) { long h = t; int x = h % nlb; h /= nlb; if (la) c.lb = LBS[x]; else opt = OPT[x]; const int *B = BQ[nb3 == 3 || (sz & 1)]; c.mb = B[h % nb3]; h /= nb3; c.nb = B[h % nb3]; h /= nb3; c.kb = B[h % nb3]; h /= nb3; x = h % ncl; h /= ncl; c.cmem = CL[x][0]; c.l1 = CL[x][1]; x = h % nth; h /= nth; c.b1 = TH[x][0]; c.b2 = TH[x][1]; if (!T) { c.b1 = TH[sz % 3][0]; c.b2 = TH[sz % 3][1]; } ub = T ? h : h ? 1 : 2 * (sz & 1); }
        build(p, m, n, k, lay, 1, NAN); armas_cbuf_t cb; armas_wbuf_t w = {0}; void *mem = 0; cfg_set(&c); p->ncf = t == N; if (p->ncf) armas_conf_default()->error = 0; p->cf.optflags = opt | (ub == 2 ? ARMAS_CBUF_LOCAL : 0);
        if (t >= 0 && t < N && ub == 1) { size_t z = c.cmem; mem = malloc(z); memset(mem, 0xff, z); w = (armas_wbuf_t){.buf = mem, .offset = 0, .bytes = z}; p->cf.work = &w; } else cfg_poison_cbuf_with(0xff); (void)cb;
        char d[160]; snprintf(d, sizeof d, "mb=%d nb=%d kb=%d lb=%d b1=%d b2=%d cmem=%ld l1=%ld buffer=%d opt=%d%s", c.mb, c.nb, c.kb, c.lb, c.b1, c.b2, c.cmem, c.l1, ub, opt, t == N ? " conf=NULL" : ""); label(p, d);
        run(p); free(mem); if (p->ncf) p->cf.error = armas_conf_default()->error; p->ncf = 0; if (mc_failed()) return; EXPECT("status", p->rc >= 0, "status %d, error %d with %s", p->rc, p->cf.error, d); if (!untouched(p, 0, d)) return; out_t *u = outs(p, 0); if (t < 0) ref = u; else if (!same(ref, u, exact, d)) return; done(p);
    }
    mc_outcome(mc_hash(ref->v, ref->n * 8, 1)); cfg_set(&CFG_DEFAULT);
}
#elif FAM == 31
static void body(ctx *o, int sz, int lay, int cfg)
{
    int m = SZ[sz][0], n = SZ[sz][1], k = SZ[sz][2]; out_t *ref = 0; static const double AR[] = {NAN, 1.25e200, 0.0}; static const int FILL[] = {0xff, 0x55, 0}; mc_case_timeout(60); outn = 0;
    for (int v = 0; v < 4; v++) {
        int a = v % 3; ctx *p = o; mc_poison = 0; build(p, m, n, k, lay, 1, AR[a]); cfg_set(&BC[cfg]); cfg_poison_cbuf_with(FILL[a]); mc_poison = a == 0 || v == 3; label(p, "");
        if (p->op->opt & W && v != 1) { armas_wbuf_t q = ARMAS_WBNULL; p->w = 1; p->wb = &q; run(p); if (q.bytes) { p->wb = work(q.bytes); memset(wk_mem, FILL[a], q.bytes); } else p->wb = 0, p->w = 0; } else p->w = 0;
        for (int q = 0; q < p->nx; q++) if (p->d[q].t == 'x') { gm_t *g = &p->g[q]; for (int j = 0; j < g->m.cols; j++) for (int i = 0; i < g->m.rows; i++) G(g, i, j) = AR[a]; gm_snap(g); }
        run(p); if (p->w) workdone(); mc_poison = 1; if (mc_failed()) return; EXPECT("status", p->rc >= 0, "status %d, error %d", p->rc, p->cf.error); if (!untouched(p, 0, "call")) return;
        out_t *u = outs(p, 1); if (v == 0) ref = u; else { char w[80]; snprintf(w, sizeof w, "same call again with %s", v == 3 ? "the same surroundings" : v == 1 ? "other surroundings and scratch content, own workspace" : "zero surroundings and scratch content"); if (!same(ref, u, !(v == 1 && !strncmp(p->op->name, "svd", 3)) , w)) return; } done(p); /* svd alone works in a larger buffer than it asks for, with another blocking */
    }
    mc_outcome(mc_hash(ref->v, ref->n * 8, 1)); cfg_set(&CFG_DEFAULT);
}
#elif FAM == 32
/* two threads make the same call (or one makes a matrix product) on data of their own; in a process
 * of its own, so that these are its first calls; the accesses are checked for ordering (races) */
#include "conc.h"
static struct { ctx *o; int m, n, k, lay, cfg, mul; gm_t A, B, C; int rc; } Z;
static void *th0(void *a) { run(Z.o); return 0; }
static void *th1(void *a)
{
    if (!Z.mul) { run(Z.o + 1); return 0; }
    armas_conf_t c = {0}; Z.rc = armas_mult(0.5, &Z.C.m, 2.0, &Z.A.m, &Z.B.m, ARMAS_TRANSB, &c); return 0;
}
static void pairbody(void *arg)
{
    pthread_t t[2]; int nt = 2; outn = 0;
    build(Z.o, Z.m, Z.n, Z.k, Z.lay, 1, NAN); build(Z.o + 1, Z.m, Z.n, Z.k, Z.lay, 1, NAN);
    if (Z.mul) { gm_new(&Z.A, 6, 5, LT); gm_new(&Z.B, 7, 5, LT); gm_new(&Z.C, 6, 7, LT);
        for (int j = 0; j < 7; j++) for (int i = 0; i < 7; i++) { if (i < 6 && j < 5) G(&Z.A, i, j) = i - j; if (j < 5) G(&Z.B, i, j) = i + 2 * j; if (i < 6) G(&Z.C, i, j) = i * j; } }
    cfg_set(&BC[Z.cfg]);
    pthread_create(&t[0], 0, th0, 0); pthread_create(&t[1], 0, th1, 0);
    for (int i = 0; i < nt; i++) pthread_join(t[i], 0);
    if (cs_failed()) return;
    if (cs_live_threads() || cs_unjoined()) { cs_fail("threads-left", "%d threads alive, %d not joined", cs_live_threads(), cs_unjoined()); return; }
    /* alone, afterwards */
    static ctx R; R = *Z.o; R.PP = 0; R.plen = 0; memset(R.g, 0, sizeof R.g); build(&R, Z.m, Z.n, Z.k, Z.lay, 1, NAN); cfg_set(&BC[Z.cfg]); run(&R); out_t *ref = outs(&R, 1);
    for (int i = 0; i < (Z.mul ? 1 : 2); i++) {
        ctx *p = Z.o + i; out_t *u = outs(p, 1);
        if ((p->rc < 0) != (R.rc < 0) || p->cf.error != R.cf.error) { cs_fail("status", "thread %d: status %d error %d, the same call alone: %d, %d", i, p->rc, p->cf.error, R.rc, R.cf.error); return; }
        for (int e = 0; e < ref->n; e++) if (!mc_biteq(ref->v[e], u->v[e])) { cs_fail("result", "thread %d: output element %d is %.17g, the same call alone gives %.17g", i, e, u->v[e], ref->v[e]); return; }
        for (int q = 0; q < p->nx; q++) if (!ispiv(&p->d[q]) && p->g[q].buf && gm_diff_outside(&p->g[q]) >= 0) { cs_fail("outside-view", "thread %d: memory around operand %d changed", i, q); return; }
    }
    if (Z.mul) {
        if (Z.rc) { cs_fail("status", "armas_mult beside it returned %d", Z.rc); return; }
        for (int j = 0; j < 7; j++) for (int i = 0; i < 6; i++) { double x = 0.5 * i * j; for (int l = 0; l < 5; l++) x += 2.0 * (i - l) * (j + 2 * l); if (G(&Z.C, i, j) != x) { cs_fail("result", "armas_mult beside it: element (%d,%d) is %g, exactly %g", i, j, G(&Z.C, i, j), x); return; } }
    }
}
static void body(ctx *o, int sz, int lay, int cfg)
{
    memset(&Z, 0, sizeof Z); Z.o = o; Z.m = SZ[sz][0]; Z.n = SZ[sz][1]; Z.k = SZ[sz][2]; Z.lay = lay; Z.cfg = cfg % 8; Z.mul = cfg >= 8; o->m = Z.m; o->n = Z.n; o->k = Z.k; o[0].w = o[1].w = 0;
    cs_bound_t b = {thorough() ? 2 : 0, thorough() ? 2 : 0, 1, 1, 0, 20000, 1}; cs_stat_t st;
    label(o, Z.mul ? "beside armas_mult" : "in two threads"); mc_case_timeout(300);
    cs_explore(&b, pairbody, 0, &st); mc_ops(st.points + 2 * st.execs); mc_cmp(st.execs); if (st.capped) mc_capped();
    mc_outcome(mc_hash(&st, sizeof st.execs * 3, 5));
}
#elif FAM == 5
static void body(ctx *o, int sz, int lay, int cfg)
{
    int m = SZ[sz][0], n = SZ[sz][1], k = SZ[sz][2]; out_t *ref = 0; mc_case_timeout(60); outn = 0; long f = 0;
    for (f = 0; f < 200; f++) { /* f = 0: no failure */
        build(o, m, n, k, lay, 1, NAN); cfg_set(&BC[cfg]); label(o, ""); armas_cbuf_release_thread_global(); long live0 = mc_live(); if (f) mc_fail_alloc(f); run(o); int hit = mc_alloc_failed() > 0; mc_fail_alloc(0);
        if (mc_failed()) return; char d[64]; snprintf(d, sizeof d, "allocation %ld fails", f);
        if (f == 0) { EXPECT("status", o->rc >= 0, "status %d, error %d", o->rc, o->cf.error); ref = outs(o, 0); }
        else if (o->op->opt & SC ? o->cf.error > 0 : o->rc < 0) { EXPECT("spurious", hit, "status %d, error %d without failure", o->rc, o->cf.error); EXPECT("no-error", o->cf.error > 0, "%s: status %d, error in configuration is %d", d, o->rc, o->cf.error); }
        else if (!same(ref, outs(o, 0), 0, d)) return;
        if (!untouched(o, 0, d)) return; armas_cbuf_release_thread_global(); EXPECT("leak", mc_live() == live0, "%s: %ld blocks leaked", d, mc_live() - live0); done(o);
        if (f && !hit) break;
        if (f) { build(o, m, n, k, lay, 1, NAN); cfg_set(&BC[cfg]); run(o); EXPECT("again", o->rc >= 0, "repeated call: status %d, error %d", o->rc, o->cf.error); if (!same(ref, outs(o, 0), 0, "repeated call")) return; done(o); }
    }
    mc_outcome(f);
}
#endif
void mc_body(void)
{
#if FAM == 32
    static const int PS[] = {5, 7, 2, 13, 14, 16, 11, 3, 19}, PC[] = {2, 0, 10, 1, 3, 4}; /* from 8: beside armas_mult */
    ctx *q; pickop(&q, 0); int si = PS[mc_choose("size", thorough() ? 9 : 3)], ci = PC[mc_choose("config", thorough() ? 6 : 3)];
    if (!mc_begin()) return;
    if (!shape_ok(q->op, SZ[si][0], SZ[si][1])) { mc_ops(1); return; }
    body(q, si, (si + ci) % 3, ci); return;
#endif
    ctx *o; pickop(&o, FAM == 11 ? W : 0); int nsz = thorough() || FAM != 30 ? NSZ : 16, s = mc_choose("size", nsz + (FAM == 11 && o->op->opt & LA ? NBIG : 0)), cfg = FAM == 30 ? 0 : s >= NSZ ? NBC - 1 : mc_choose("config", thorough() ? 5 : 4), lay = thorough() || FAM == 31 ? mc_choose("layout", 3) : (s + cfg) % 3;
    if (!mc_begin()) return;
    if (!shape_ok(o->op, SZ[s][0], SZ[s][1])) { mc_ops(1); return; }
    body(o, s, lay, cfg);
}
#endif
