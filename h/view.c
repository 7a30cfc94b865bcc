/* C28: views, indexing, life cycle of matrices, workspace buffers and pivot vectors */
#include "mc.h"
#include "num.h"
#include "vecs.h"
const char *mc_name = "view";
void mc_setup(void) {}
#define EXPECT(key, cond, ...) do { mc_cmp(1); if (!(cond)) { mc_fail(key, __VA_ARGS__); return; } } while (0)
static int thorough(void) { static int t = -1; if (t < 0) { const char *e = getenv("VERIF_TIER"); t = e && !strcmp(e, "thorough"); } return t; }
/* a view in the reference model: element (i,j) is buffer element off + i*rs + j*cs */
typedef struct { int r, c; long off, rs, cs; } ref_t;
static char note[400];
#define NOTE(...) snprintf(note + strlen(note), sizeof(note) - strlen(note), __VA_ARGS__)
/* apply one view operation; the choices are made first, the real call only when fn pointers run: record */
typedef struct { int op, a, b, c, d, e; } vop_t;
enum { COLUMN, ROW, SUB, SUBVEC, DIAG, SUBEXT, COLROW, NOP };
static int pick_op(vop_t *o, ref_t *v, int depth)
{
    /* v is updated; returns 0 when there is nothing below */
    int isv = v->r == 1 || v->c == 1, step1 = v->r == 1 && v->c > 1, k;
    int full = depth == 0;
    o->op = mc_choose("op", v->c == 1 && v->rs == 1 ? 7 : 6); o->a = o->b = o->c = o->d = o->e = 0;
    int uns = mc_choose("unsafe", o->op == COLROW || o->op == SUBEXT ? 1 : 2); o->e = uns;
    switch (o->op) {
    case COLUMN: k = mc_range("col", uns ? 0 : -v->c, v->c - 1); o->a = k; if (k < 0) k += v->c; v->off += k * v->cs; v->c = 1; break;
    case ROW: k = mc_range("row", uns ? 0 : -v->r, v->r - 1); o->a = k; if (k < 0) k += v->r; v->off += k * v->rs; v->r = 1; break;
    case SUB: case SUBEXT: {
        int diagstep = o->op == SUBEXT ? mc_choose("step", 2) : 0;
        int lo = uns || !full ? 0 : -1;
        int r = mc_range("r", lo * v->r, v->r - 1), c = mc_range("c", lo * v->c, v->c - 1), rr = r < 0 ? r + v->r : r, cc = c < 0 ? c + v->c : c;
        int nr = diagstep ? 1 : mc_range("nr", uns ? 1 : -1, v->r - rr), nc = mc_range("nc", uns ? 1 : -1, v->c - cc);
        int nnr = nr < 0 ? v->r - rr : nr, nnc = nc < 0 ? v->c - cc : nc;
        if (diagstep && (nnc > v->r - rr || v->rs != 1)) { nc = nnc = 1; }
        o->a = r; o->b = c; o->c = nr; o->d = nc; if (o->op == SUBEXT) o->e = diagstep ? 1 : -1;
        v->off += rr * v->rs + cc * v->cs; v->r = nnr; v->c = nnc; if (diagstep) v->cs += 1; (void)step1;
        break; }
    case SUBVEC:
        if (!isv) { if (uns) return 0; o->a = 0; o->b = 1; v->r = v->c = 0; break; }
        { int n = v->r == 1 ? v->c : v->r, p = mc_range("n", uns ? 0 : -n, n - 1), pp = p < 0 ? p + n : p, len = mc_range("len", uns ? 1 : -1, n - pp), ll = len < 0 ? n - pp : len;
          o->a = p; o->b = len; if (v->r == 1) { v->off += pp * v->cs; v->c = ll; } else { v->off += pp * v->rs; v->r = ll; } }
        break;
    case DIAG: k = mc_range("k", -(v->r - 1), v->c - 1); o->a = k; v->off += k > 0 ? k * v->cs : -k * v->rs; 
        { int n1 = k > 0 ? v->r : v->r + k, n2 = k > 0 ? v->c - k : v->c; v->c = n1 < n2 ? n1 : n2; v->cs += v->rs; v->r = 1; }
        break;
    case COLROW: v->c = v->r; v->r = 1; v->cs = 1; break;
    }
    NOTE(" %s%s(%d,%d,%d,%d)", (const char *[]){"column", "row", "submatrix", "subvector", "diag", "submatrix_ext", "col_as_row"}[o->op], o->e == 1 && o->op != SUBEXT ? "_unsafe" : "", o->a, o->b, o->c, o->d);
    return 1;
}
static void run_op(const vop_t *o, armas_dense_t *X, const armas_dense_t *Y)
{
    switch (o->op) {
    case COLUMN: (o->e ? armas_column_unsafe : armas_column)(X, Y, o->a); break;
    case ROW: (o->e ? armas_row_unsafe : armas_row)(X, Y, o->a); break;
    case SUB: (o->e ? armas_submatrix_unsafe : armas_submatrix)(X, Y, o->a, o->b, o->c, o->d); break;
    case SUBEXT: armas_submatrix_ext(X, Y, o->a, o->b, o->c, o->d, o->e > 0 ? Y->step + 1 : -1); break;
    case SUBVEC: (o->e ? armas_subvector_unsafe : armas_subvector)(X, Y, o->a, o->b); break;
    case DIAG: (o->e ? armas_diag_unsafe : armas_diag)(X, Y, o->a); break;
    case COLROW: armas_col_as_row(X, (armas_dense_t *)Y); break;
    }
}
static void only(gm_t *g, long at, double val, const char *who, int i, int j)
{
    for (long k = 0; k < g->len; k++) if (k == at ? g->buf[k] != val : !mc_biteq(g->buf[k], g->snap[k])) { mc_fail("set", "%s (%d,%d) %s buffer element %ld (view element is at %ld)", who, i, j, k == at ? "did not reach" : "changed", k, at); return; }
    g->buf[at] = g->snap[at];
}
static void views(int depth)
{
    int r = mc_range("rows", 1, depth > 1 ? 3 : 4), c = mc_range("cols", 1, depth > 1 ? 3 : 4), lay = mc_choose("lay", 2); ref_t v; vop_t o[3]; int nops;
    v.r = r; v.c = c; v.off = 0; v.rs = 1; v.cs = 1000; note[0] = 0;  /* cs is fixed below once the step is known */
    int step = lay == LT ? r : r + 1000; /* symbolic: replaced after gm_new; only used through coefficients */
    (void)step; ref_t w = v;
    /* track coefficients in units: off = a + b*1000 (step counts 1000) */
    for (nops = 0; nops < depth; nops++) { if (w.r * w.c == 0) break; if (!pick_op(&o[nops], &w, nops)) return; }
    if (nops < depth) return;   /* empty view reached earlier: covered at the smaller depth */
    if (!mc_begin()) return;
    mc_note("%dx%d lay=%d:%s", r, c, lay, note);
    gm_t g; gm_new(&g, r, c, lay); for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) G(&g, i, j) = 10 * i + j + 1;
    long st = g.m.step;
#define REAL(x) (((x) / 1000) * st + (x) % 1000)
    gm_snap(&g); armas_dense_t X[4], keep; X[0] = g.m; keep = g.m;
    for (int k = 0; k < nops; k++) { memset(&X[k + 1], 0xa5, sizeof(X[0])); run_op(&o[k], &X[k + 1], &X[k]); mc_ops(1); if (k + 1 < nops) EXPECT("source", X[k + 1].__data == 0, "view owns data"); }
    EXPECT("source", !memcmp(&keep, &X[0], sizeof(keep)), "the source matrix header was changed");
    armas_dense_t *A = &X[nops]; int n = w.r * w.c;
    EXPECT("size", armas_size(A) == n, "size is %ld, expected %d", (long)armas_size(A), n);
    gm_same(&g, "source");
    if (n == 0) { EXPECT("empty", armas_get(A, 0, 0) == 0 && armas_get_at(A, 0) == 0, "element of empty view"); armas_set(A, 0, 0, 5); armas_set_at(A, 0, 5); gm_same(&g, "source of an empty view"); mc_outcome(1); return; }
    EXPECT("shape", A->rows == w.r && A->cols == w.c, "view is %ldx%ld, expected %dx%d", (long)A->rows, (long)A->cols, w.r, w.c);
    EXPECT("owner", A->__data == 0 && A->__nbytes == 0, "the view claims to own its data");
    EXPECT("isvector", !!armas_isvector(A) == (w.r == 1 || w.c == 1), "isvector");
    long base = REAL(w.off);
    EXPECT("data", armas_data(A) == g.m.elems + base, "data pointer is off by %ld", (long)(armas_data(A) - g.m.elems - base));
    EXPECT("valid", armas_index_valid(A, n - 1) && armas_index_valid(A, -n) && !armas_index_valid(A, n) && !armas_index_valid(A, -n - 1), "index_valid");
    for (int j = 0; j < w.c; j++) for (int i = 0; i < w.r; i++) {
        long at = g.off + base + i * REAL(w.rs) + j * REAL(w.cs), lin = (long)j * w.r + i; double e = g.snap[at];
        EXPECT("get", armas_get(A, i, j) == e && armas_get(A, i - w.r, j - w.c) == e && armas_get(A, i - w.r, j) == e && armas_get(A, i, j - w.c) == e && armas_get_unsafe(A, i, j) == e, "get (%d,%d) is %g, expected %g", i, j, armas_get(A, i, j), e);
        EXPECT("index", armas_data(A) + armas_index(A, i, j) == &g.buf[at] && armas_index(A, i - w.r, j - w.c) == armas_index(A, i, j) && armas_index_unsafe(A, i, j) == armas_index(A, i, j), "index (%d,%d)", i, j);
        EXPECT("get-at", armas_get_at(A, lin) == e && armas_get_at(A, lin - n) == e, "get_at %ld is %g, %g, expected %g", lin, armas_get_at(A, lin), armas_get_at(A, lin - n), e);
        double t = 1000 + lin;
        armas_set(A, i, j, t); only(&g, at, t, "set", i, j); armas_set(A, i - w.r, j - w.c, t); only(&g, at, t, "set", i - w.r, j - w.c); armas_set_unsafe(A, i, j, t); only(&g, at, t, "set_unsafe", i, j);
        armas_set_at(A, lin, t); only(&g, at, t, "set_at", lin, 0); armas_set_at(A, lin - n, t); only(&g, at, t, "set_at", lin - n, 0);
        if (w.r == 1 || w.c == 1) { EXPECT("get-at", armas_get_at_unsafe(A, lin) == e, "get_at_unsafe %ld", lin); armas_set_at_unsafe(A, lin, t); only(&g, at, t, "set_at_unsafe", lin, 0); }
        mc_ops(12);
    }
    mc_outcome(mc_hash(A, sizeof(int) * 3, base));
}
/* ---- life cycle: sequences over two matrices -------------------------------------------------- */
static void cycle(int len)
{
    struct { int st, r, c, heap; double v[12]; } M[2] = {{0}}; int ops[8][4], n; note[0] = 0;
    static const int sh[5][2] = {{1, 1}, {2, 3}, {3, 1}, {0, 2}, {4, 3}};
    /* choose: model state decides which operations are legal */
    struct { int st, r, c; } T[2] = {{0}};
    for (n = 0; n < len; n++) {
        int s = mc_choose("slot", 2), legal[16], nl = 0;
        if (!T[s].st) { for (int k = 0; k < 5; k++) legal[nl++] = k; for (int k = 0; k < 4; k++) if (k != 3) legal[nl++] = 5 + k; if (T[!s].st && T[!s].r) legal[nl++] = 10; legal[nl++] = 11; }
        else { legal[nl++] = 12; if (T[!s].st && T[!s].r == T[s].r && T[!s].c == T[s].c && T[s].r) legal[nl++] = 13; if (T[s].st == 1) legal[nl++] = 14; if (T[s].r) legal[nl++] = 15; }
        int op = legal[mc_choose("op", nl)]; ops[n][0] = s; ops[n][1] = op;
        if (op < 5) { T[s].st = 1; T[s].r = sh[op][0] * !!sh[op][1]; T[s].c = sh[op][1]; if (!T[s].r) T[s].c = 0; }
        else if (op < 10) { T[s].st = 2; T[s].r = sh[op - 5][0]; T[s].c = sh[op - 5][1]; }
        else if (op == 10) { T[s].st = 2; T[s].r = T[!s].r; T[s].c = T[!s].c; }
        else if (op == 12) T[s].st = 0;
        else if (op == 14) T[s].r = T[s].c = 0;
        NOTE(" %d:%d", s, op);
    }
    if (!mc_begin()) return;
    mc_note("life cycle%s (op <5 init, <10 alloc, 10 newcopy, 11 alloc 0, 12 release/free, 13 mcopy, 14 release twice, 15 set)", note);
    long live0 = mc_live(); armas_dense_t H[2], *P[2] = {0, 0}; armas_conf_t cf = *armas_conf_default(); int cnt = 0;
    for (int k = 0; k < len; k++) {
        int s = ops[k][0], op = ops[k][1]; mc_ops(1);
        if (op < 5) { EXPECT("init", armas_init(&H[s], sh[op][0], sh[op][1]) == &H[s], "armas_init failed"); P[s] = &H[s]; M[s].heap = 0; M[s].st = 1; M[s].r = sh[op][0]; M[s].c = sh[op][1]; if (!M[s].r || !M[s].c) M[s].r = M[s].c = 0; memset(M[s].v, 0, sizeof M[s].v); }
        else if (op < 10) { P[s] = armas_alloc(sh[op - 5][0], sh[op - 5][1]); EXPECT("alloc", P[s] != 0, "armas_alloc failed"); M[s].heap = 1; M[s].st = 1; M[s].r = sh[op - 5][0]; M[s].c = sh[op - 5][1]; memset(M[s].v, 0, sizeof M[s].v); }
        else if (op == 10) { P[s] = armas_newcopy(P[!s]); EXPECT("newcopy", P[s] != 0, "armas_newcopy failed"); M[s] = M[!s]; M[s].heap = 1; M[s].st = 1; EXPECT("newcopy", P[s]->elems != P[!s]->elems, "the copy shares its data"); }
        else if (op == 11) { EXPECT("alloc0", armas_alloc(0, 3) == 0 && armas_alloc(3, 0) == 0, "empty matrix allocated");  static const int BIG[][2] = {{65536, 65536}, {46341, 46341}, {65536, 32768}, {32768, 65536}, {2, 1 << 30}, {1 << 30, 2}, {3, 1431655765}, {715827883, 6}, {2147483647, 2147483647}};
            for (int b = 0; b < 9; b++) { armas_dense_t B; EXPECT("too-large", armas_init(&B, BIG[b][0], BIG[b][1]) == 0, "a %d by %d matrix initialized", BIG[b][0], BIG[b][1]); EXPECT("too-large", armas_alloc(BIG[b][0], BIG[b][1]) == 0, "a %d by %d matrix allocated", BIG[b][0], BIG[b][1]); } }
        else if (op == 12) { if (M[s].heap) armas_free(P[s]); else { armas_release(P[s]); EXPECT("release", armas_size(P[s]) == 0 && armas_data(P[s]) == 0, "released matrix is not empty"); } P[s] = 0; M[s].st = 0; }
        else if (op == 13) { EXPECT("mcopy", armas_mcopy(P[s], P[!s], 0, &cf) == 0, "mcopy error %d", cf.error); memcpy(M[s].v, M[!s].v, sizeof M[s].v); }
        else if (op == 14) { armas_release(P[s]); armas_release(P[s]); M[s].r = M[s].c = 0; }
        else { int i = M[s].r - 1, j = M[s].c - 1; double x = ++cnt; armas_set(P[s], -1, -1, x); M[s].v[j * M[s].r + i] = x; }
        for (int q = 0; q < 2; q++) if (M[q].st) {
            EXPECT("sizes", armas_size(P[q]) == M[q].r * M[q].c, "slot %d has %ld elements, expected %d", q, (long)armas_size(P[q]), M[q].r * M[q].c);
            if (M[q].r) { EXPECT("sizes", P[q]->rows == M[q].r && P[q]->cols == M[q].c && P[q]->step >= M[q].r && (char *)P[q]->elems >= (char *)P[q]->__data && (char *)(P[q]->elems + (M[q].c - 1) * P[q]->step + M[q].r) <= (char *)P[q]->__data + P[q]->__nbytes, "slot %d is %ldx%ld", q, (long)P[q]->rows, (long)P[q]->cols); }
            for (int j = 0; j < M[q].c; j++) for (int i = 0; i < M[q].r; i++) EXPECT("content", armas_get(P[q], i, j) == M[q].v[j * M[q].r + i], "slot %d element (%d,%d) is %g, expected %g", q, i, j, armas_get(P[q], i, j), M[q].v[j * M[q].r + i]);
        }
    }
    for (int q = 0; q < 2; q++) if (M[q].st) { if (M[q].heap) armas_free(P[q]); else armas_release(P[q]); }
    armas_free(0); armas_release(0);
    EXPECT("leak", mc_live() == live0, "%ld allocations left", mc_live() - live0);
    mc_outcome(mc_hash(ops, sizeof(int) * 4 * len, 3) % 1000);
}
/* ---- workspace buffers ------------------------------------------------------------------------ */
static void wbuf(int len)
{
    static const int sz[] = {0, 8, 24}; int b = sz[mc_choose("bytes", 3)], heap = mc_choose("new", 2), ops[8][2]; note[0] = 0;
    for (int k = 0; k < len; k++) { ops[k][0] = mc_choose("op", 7); ops[k][1] = ops[k][0] == 0 ? MC_PICK("n", 0, 1, 8, 16, 25) : ops[k][0] == 1 ? MC_PICK("count", 1, 2, 3) : ops[k][0] == 2 ? MC_PICK("bits", 1, 8, 65) : 0; NOTE(" %d(%d)", ops[k][0], ops[k][1]); }
    if (!mc_begin()) return;
    mc_note("workspace %d bytes new=%d:%s (0 reserve_bytes 1 reserve 2 bits 3 save 4 restore 5 reset 6 zero)", b, heap, note);
    long live0 = mc_live(); armas_wbuf_t W = ARMAS_WBNULL, *w = &W; if (heap) w = armas_wnew(b); else EXPECT("walloc", armas_walloc(&W, b) == &W, "walloc failed");
    EXPECT("walloc", w && w->bytes == b, "allocation failed"); size_t off = 0, save = 0; char *base = armas_wptr(w);
    for (int k = 0; k < len; k++) {
        mc_ops(1);
        switch (ops[k][0]) {
        case 0: case 1: case 2: { size_t need = ops[k][0] == 0 ? ops[k][1] : ops[k][0] == 1 ? ops[k][1] * 8 : (ops[k][1] + 7) / 8; char *p = ops[k][0] == 0 ? armas_wreserve_bytes(w, need) : ops[k][0] == 1 ? armas_wreserve(w, ops[k][1], 8) : armas_wreserve_bits(w, ops[k][1]);
            if (need > b - off) EXPECT("over", p == 0, "reserved %zu bytes with %zu free", need, b - off); else { EXPECT("reserve", p == base + off, "reservation is at %ld, expected %zu", (long)(p - base), off); memset(p, 0x5a, need); off += need; } } break;
        case 3: save = armas_wpos(w); break;
        case 4: armas_wsetpos(w, save); off = save; break;
        case 5: armas_wreset(w); off = 0; break;
        case 6: armas_wzero(w, 0); for (int i = 0; i < b; i++) EXPECT("zero", base[i] == 0, "byte %d not zero", i); if (b) { base[b - 1] = 7; armas_wzero(w, 1); if (b > 1) EXPECT("zero", base[b - 1] == 7, "zeroed more than asked"); } break;
        }
        EXPECT("pos", armas_wpos(w) == off && armas_wbytes(w) == b - off && armas_wptr(w) == base + off, "position is %zu (%zu free), expected %zu", armas_wpos(w), armas_wbytes(w), off);
    }
    if (heap) armas_wfree(w); else { armas_wrelease(w); EXPECT("released", armas_wbytes(w) == 0 && w->buf == 0, "released workspace is not empty"); armas_wrelease(w); }
    armas_wfree(0); armas_wrelease(0); EXPECT("nowork", armas_wreserve_bytes(0, 1) == 0 && armas_wbytes(0) == 0 && armas_wptr(0) == 0 && armas_wpos(0) == 0, "null workspace");
    EXPECT("leak", mc_live() == live0, "%ld allocations left", mc_live() - live0); mc_outcome(off);
}
static void pivots(void)
{
    int sz = mc_range("size", 0, 3), kind = mc_choose("kind", 3), k1 = mc_range("k", -1, 4), k2 = mc_range("k", -1, 4), twice = mc_choose("twice", 2), prt = mc_choose("print", 2);
    if (!mc_begin()) return;
    mc_note("pivot size=%d kind=%d set %d,%d", sz, kind, k1, k2);
    long live0 = mc_live(); armas_pivot_t H, *p = &H; int data[5] = {7, 7, 7, 7, 7}, ref[5] = {0};
    if (kind == 0) EXPECT("init", armas_pivot_init(&H, sz) == &H, "init failed"); else if (kind == 1) { p = armas_pivot_new(sz); EXPECT("new", p != 0, "new failed"); } else { armas_pivot_make(&H, sz, data); for (int i = 0; i < 3; i++) ref[i] = 7; }
    EXPECT("size", armas_pivot_size(p) == sz && armas_pivot_size(0) == 0, "size is %d", armas_pivot_size(p));
    armas_pivot_set(p, k1, 11); if (k1 >= 0 && k1 < sz) ref[k1] = 11; armas_pivot_set(p, k2, -12); if (k2 >= 0 && k2 < sz) ref[k2] = -12; mc_ops(2);
    for (int k = -2; k < 6; k++) EXPECT("get", armas_pivot_get(p, k) == (k >= 0 && k < sz ? ref[k] : 0), "element %d is %d", k, armas_pivot_get(p, k));
    for (int k = 0; k < sz; k++) { EXPECT("get", armas_pivot_get_unsafe(p, k) == ref[k] && armas_pivot_data(p)[k] == ref[k], "element %d", k); armas_pivot_set_unsafe(p, k, k); EXPECT("get", armas_pivot_get(p, k) == k, "set_unsafe"); }
    if (prt) { char *bp = 0; size_t bn = 0; FILE *f = open_memstream(&bp, &bn); armas_pivot_printf(f, "%d", p); fclose(f); char e[64] = "["; for (int k = 0; k < sz; k++) sprintf(e + strlen(e), k ? ", %d" : "%d", k); strcat(e, "]\n"); int ok = !strcmp(bp, e); EXPECT("print", ok, "printed %s", bp); free(bp); }
    for (int k = 0; k < 5; k++) if (kind != 2 || k >= sz) EXPECT("outside", data[k] == 7, "element %d outside was written", k);
    if (kind == 1) armas_pivot_free(p); else { armas_pivot_release(p); EXPECT("size", armas_pivot_size(p) == 0, "released pivot has elements"); if (twice) armas_pivot_release(p); }
    armas_pivot_free(0); armas_pivot_release(0); EXPECT("leak", mc_live() == live0, "%ld allocations left", mc_live() - live0); mc_outcome(sz * 3 + kind);
}
static void print(void)
{
    int r = MC_PICK("rows", 1, 2, 17, 18, 19, 25), c = MC_PICK("cols", 1, 3, 9, 10, 12), lay = mc_choose("lay", 2), how = mc_choose("how", 3);
    if (!mc_begin()) return;
    mc_note("print %dx%d lay=%d how=%d", r, c, lay, how);
    gm_t g; gm_new(&g, r, c, lay); for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) G(&g, i, j) = 100 * i + j; gm_snap(&g);
    char *bp = 0; size_t bn = 0, en = 0; char *ep = 0; FILE *f = open_memstream(&bp, &bn), *e = open_memstream(&ep, &en); const char *fmt = how == 1 ? "%.0f" : "%8.1e";
    if (how == 2) armas_print(&g.m, f); else armas_printf(f, how == 1 ? fmt : 0, &g.m); fclose(f); mc_ops(1);
    for (int i = 0; i < r; i++) { fputc('[', e); for (int j = 0; j < c; j++) { if (j) fputs(", ", e); fprintf(e, fmt, G(&g, i, j)); if (c > 9 && j == 3) { j = c - 5; fputs(", ...", e); } } fputs("]\n", e); if (r > 18 && i == 8) { fputs(" ....\n", e); i = r - 10; } }
    fclose(e); int ok = !strcmp(bp, ep); mc_cmp(1); if (!ok) mc_fail("print", "printed: %.60s expected: %.60s", bp, ep); free(bp); free(ep); gm_same(&g, "printed matrix"); mc_outcome(r * 16 + c);
}
/* random numbers: a seed determines the sequence, whatever was drawn before; ranges and shapes of the generators */
static void randoms(void)
{
    static const long S[] = {1, -1, 7, 2147483647L, 123456789012L}; long s1 = S[mc_choose("seed", 5)], s2 = S[mc_choose("seed-before", 5)]; int len = mc_range("len", 1, 4), drawn = mc_choose("drawn", 3), g[4];
    for (int i = 0; i < len; i++) g[i] = mc_choose("generator", 4);
    if (!mc_begin()) return;
    mc_note("random numbers seed=%ld before=%ld drawn=%d: %d %d %d %d", s1, s2, drawn, g[0], len > 1 ? g[1] : 0, len > 2 ? g[2] : 0, len > 3 ? g[3] : 0); double v[2][4]; uint64_t h = s1;
    for (int rep = 0; rep < 2; rep++) {
        if (rep) { EXPECT("seed", armas_seed(s2) == s2, "seed not returned"); for (int i = 0; i < drawn; i++) armas_normal(); }
        EXPECT("seed", armas_seed(s1) == s1 && armas_seed(0) == s1, "seed %ld not in force", s1);
        for (int i = 0; i < len; i++) { double x = g[i] == 0 ? armas_uniform() : g[i] == 1 ? armas_normal() : g[i] == 2 ? armas_uniform_at(i, 2) : armas_normal_at(3, i); mc_ops(1); v[rep][i] = x; EXPECT("range", isfinite(x) && (g[i] % 2 || (x >= 0 && x < 1)), "generator %d gives %g", g[i], x); }
    }
    for (int i = 0; i < len; i++) { EXPECT("repeat", v[0][i] == v[1][i], "value %d after the same seed is %.17g and %.17g", i, v[0][i], v[1][i]); h = mc_hash(&v[0][i], 8, h); if (i) EXPECT("stuck", v[0][i] != v[0][i - 1], "the same value twice"); }
    mc_outcome(h);
}
void mc_body(void)
{
    switch (mc_choose("family", 7)) {
    case 0: { int d = mc_range("depth", 1, 2); views(d); break; }
    case 1: if (thorough()) views(3); break;
    case 2: cycle(mc_range("len", 1, thorough() ? 5 : 3)); break;
    case 3: wbuf(mc_range("len", 1, thorough() ? 4 : 3)); break;
    case 4: pivots(); break;
    case 5: print(); break;
    default: randoms();
    }
}
