/* C20: sparse containers represent exactly the appended entries */
#include "sp.h"
const char *mc_name = "spcont";
static armas_conf_t cf;
void mc_setup(void) {}
static void transp(ref_t *R) { ref_t T = {.r = R->c, .c = R->r}; for (int i = 0; i < R->r; i++) for (int j = 0; j < R->c; j++) T.v[j][i] = R->v[i][j]; *R = T; }
static const char *opn[] = {"convert CSC", "convert CSR", "convert_to CSC", "convert_to CSR", "mkcopy", "copy_to", "transpose", "transpose_to", "sort_to col", "sort_to row", "resize", "small target", "sort"};
/* apply an operation; result in *P (old one freed) */
static int apply(armas_sparse_t **P, ref_t *R, int op, int entries)
{
    armas_sparse_t *A = *P, *B = 0; int kind = A->kind, k2; ref_t junk;
    switch (op) {
    case 0: case 1: B = armassp_convert(A, op == 0 ? ARMASSP_CSC : ARMASSP_CSR); if (!sp_check(opn[op], B, R, entries, op == 0 ? ARMASSP_CSC : ARMASSP_CSR, kind != ARMASSP_CSC || 1)) return 0; break;
    case 2: case 3: k2 = op == 2 ? ARMASSP_CSC : ARMASSP_CSR; B = sp_make(&junk, R->r + 1, R->c + 1, (1u << ((R->r + 1) * (R->c + 1))) - 1, k2, 3, 0, entries); /* used before, larger */
        if (armassp_convert_to(B, A, k2) != B) { mc_fail("convert_to", "target with more space was not accepted"); return 0; }
        if (!sp_check(opn[op], B, R, entries, k2, 1)) return 0; break;
    case 4: B = armassp_mkcopy(A); if (!sp_check(opn[op], B, R, entries, kind, 0)) return 0; break;
    case 5: B = sp_make(&junk, R->r + 1, R->c + 1, (1u << ((R->r + 1) * (R->c + 1))) - 1, kind, 3, 0, entries + 2); if (armassp_copy_to(B, A) != B) { mc_fail("copy_to", "target with more space was not accepted"); return 0; } if (!sp_check(opn[op], B, R, entries, kind, 0)) return 0; break;
    case 6: case 7: if (kind == ARMASSP_COO) { B = op == 6 ? armassp_transpose(A) : 0; EXPECTR("transpose-coo", B == 0, "transpose of coordinate storage gave a result"); return 1; }
        transp(R); if (op == 6) B = armassp_transpose(A); else { B = armassp_new(R->c + 1, R->r + 1, entries + 3, kind); if (armassp_transpose_to(B, A) != B) { mc_fail("transpose_to", "not accepted"); return 0; } }
        if (!sp_check(opn[op], B, R, entries, kind, 1)) return 0; break;
    case 8: case 9: armassp_sort_to(A, op == 8 ? ARMASSP_COL_ORDER : ARMASSP_ROW_ORDER); if (!sp_check(opn[op], A, R, entries, kind, 1)) return 0;
        if (kind == ARMASSP_COO) for (int k = 1; k < A->nnz; k++) { coo_elem_t *p = &A->elems.ep[k - 1], *q = p + 1; EXPECTR("coo-order", op == 8 ? p->j < q->j || (p->j == q->j && p->i <= q->i) : p->i < q->i || (p->i == q->i && p->j <= q->j), "entries %d, %d out of order", k - 1, k); }
        return 1;
    case 10: if (kind != ARMASSP_COO) { EXPECTR("resize", armassp_resize(A, entries + 5) < 0, "compressed matrix resized"); } else {
            if (entries > 0) { EXPECTR("resize-small", armassp_resize(A, entries - 1) < 0, "resized below the number of entries"); }
            EXPECTR("resize", armassp_resize(A, entries + 1) == 0 && A->size == entries + 1, "resize failed"); }
        return sp_check(opn[op], A, R, entries, kind, 0);
    case 11: /* targets without enough space must be refused */
        for (k2 = 0; k2 < 2; k2++) if (entries > 0) { B = armassp_new(R->r, R->c, entries - 1, k2); size_t nb = B->__nbytes; armas_sparse_t *X = armassp_convert_to(B, A, k2); if (armassp_bytes_needed(R->r, R->c, entries, k2) > nb) { EXPECTR("small-target", X == 0, "converted to a target without space"); } else { if (!sp_check("small", X, R, entries, k2, 1)) return 0; } armassp_free(B); }
        if (entries > 0) { B = armassp_new(R->r, R->c, entries - 1, kind); size_t nb = B->__nbytes; armas_sparse_t *X = armassp_copy_to(B, A); if (armassp_bytes_for(A) > nb) { EXPECTR("small-target", X == 0, "copied to a target without space"); } armassp_free(B); }
        EXPECTR("null", armassp_convert_to(0, A, 0) == 0 && armassp_copy_to(0, A) == 0 && armassp_convert(0, 0) == 0 && armassp_mkcopy(0) == 0 && armassp_convert(A, ARMASSP_COO) == 0, "null operands");
        return sp_check(opn[op], A, R, entries, kind, 0);
    case 12: EXPECTR("sort", (armassp_sort(A) == 0) == (kind != ARMASSP_COO), "sort status"); return sp_check(opn[op], A, R, entries, kind, kind != ARMASSP_COO);
    }
    if (!sp_check("source", A, (ref_t[]){*R}, entries, kind, 0) && op != 6 && op != 7) return 0;
    armassp_free(A); *P = B; return 1;
}
static int apply1(armas_sparse_t **P, ref_t *R, int op, int entries)
{
    if (op != 6 && op != 7) return apply(P, R, op, entries);
    ref_t S = *R; armas_sparse_t *cp = *P; (void)cp; if (cp->kind == ARMASSP_COO) return apply(P, R, op, entries);
    /* transposition: check that the source is kept, then go on with the result */
    transp(R); ref_t T = *R; armas_sparse_t *B; 
    if (op == 6) B = armassp_transpose(cp); else { B = armassp_new(S.r + 1, S.c + 1, entries + 3, cp->kind); EXPECTR("transpose_to", armassp_transpose_to(B, cp) == B, "not accepted"); }
    if (!sp_check(opn[op], B, &T, entries, cp->kind, 1) || !sp_check("source", cp, &S, entries, cp->kind, 0)) return 0;
    armassp_free(cp); *P = B; return 1;
}
static void todense(const armas_sparse_t *A, const ref_t *R, int lay)
{
    gm_t D; gm_new(&D, R->r, R->c, lay); for (int j = 0; j < R->c; j++) for (int i = 0; i < R->r; i++) G(&D, i, j) = 77; gm_snap(&D);
    EXPECT("todense-rc", armassp_todense(&D.m, A, &cf) == 0, "todense failed"); gm_guard(&D, "dense");
    for (int j = 0; j < R->c; j++) for (int i = 0; i < R->r; i++) EXPECT("todense", G(&D, i, j) == R->v[i][j], "dense element (%d,%d) is %g, expected %g", i, j, G(&D, i, j), R->v[i][j]);
    gm_t W; gm_new(&W, R->r + 1, R->c, lay); gm_snap(&W); cf.error = 0; EXPECT("todense-size", armassp_todense(&W.m, A, &cf) < 0 && cf.error != 0, "wrong size accepted"); gm_same(&W, "dense");
}
static void pipeline(armas_sparse_t *A, ref_t *R, int n, const int *ops, int entries, int lay)
{
    for (int k = 0; k < n; k++) { mc_ops(1); if (!apply1(&A, R, ops[k], entries)) return; }
    todense(A, R, lay); mc_ops(1); armassp_free(A);
}
static void appends(void)
{
    static const int sh[][2] = {{2, 2}, {2, 3}, {3, 1}, {3, 3}, {1, 1}}; int s = mc_choose("shape", thorough() ? 5 : 3), r = sh[s][0], c = sh[s][1], cap = mc_choose("capacity", 3), len = mc_range("len", 0, 3), cell[4], nop, ops[3], bad = 0;
    for (int k = 0; k < len; k++) cell[k] = mc_choose("cell", r * c + (k == len - 1 ? 1 : 0));
    int lay = mc_choose("lay", 2); nop = mc_range("ops", 0, thorough() && len < 3 ? 3 : 2); for (int k = 0; k < nop; k++) ops[k] = mc_choose("op", ITEM(opn));
    if (len && cell[len - 1] == r * c) bad = mc_choose("bad", 4);
    if (!mc_begin()) return;
    mc_note("%dx%d capacity %d appends %d ops %s %s %s", r, c, cap, len, nop > 0 ? opn[ops[0]] : "", nop > 1 ? opn[ops[1]] : "", nop > 2 ? opn[ops[2]] : "");
    long live0 = mc_live(); cf = *armas_conf_default(); armas_sparse_t *A = armassp_new(r, c, cap, ARMASSP_COO); ref_t R = {.r = r, .c = c}; int n = 0;
    EXPECT("new", A && A->rows == r && A->cols == c && A->nnz == 0 && A->size == cap && A->kind == ARMASSP_COO, "new coordinate matrix");
    for (int k = 0; k < len; k++) {
        double v = 1 << k; int i = cell[k] % r, j = cell[k] / r;
        if (cell[k] == r * c) { i = bad == 0 ? r : bad == 1 ? -1 : 0; j = bad == 2 ? c : bad == 3 ? -1 : 0; EXPECT("append-range", armassp_append(A, i, j, v) < 0, "entry (%d,%d) accepted", i, j); }
        else { EXPECT("append", armassp_append(A, i, j, v) == 0, "append failed"); R.v[i][j] += v; n++; }
        mc_ops(1); if (!sp_check("append", A, &R, n, ARMASSP_COO, 0)) return;
    }
    pipeline(A, &R, nop, ops, n, lay);
    if (1) { mc_cmp(1); if (mc_live() != live0) { /* a failure above returns early as well */ mc_fail("leak", "%ld allocations left", mc_live() - live0); return; } }
    mc_outcome(mc_hash(R.v, sizeof R.v, n));
}
static void patterns(void)
{
    static const int sh[][2] = {{2, 2}, {3, 2}, {1, 4}, {3, 3}}; int s = mc_choose("shape", 4), r = sh[s][0], c = sh[s][1], kind = mc_choose("kind", 2), dup = mc_choose("dup", 2); unsigned bits = mc_choose("pattern", 1 << (r * c));
    int nop = mc_range("ops", 1, thorough() ? 2 : r * c > 6 ? 1 : 2), ops[2]; for (int k = 0; k < nop; k++) ops[k] = mc_choose("op", ITEM(opn));
    if (!mc_begin()) return;
    mc_note("%s %dx%d pattern %x dup=%d ops %s %s", spk[kind], r, c, bits, dup, opn[ops[0]], nop > 1 ? opn[ops[1]] : "");
    long live0 = mc_live(); cf = *armas_conf_default(); ref_t R; armas_sparse_t *A = sp_make(&R, r, c, bits, kind, 1, dup, 0); EXPECT("new", A != 0, "no matrix");
    pipeline(A, &R, nop, ops, A->nnz, 0); EXPECT("leak", mc_live() == live0, "%ld allocations left", mc_live() - live0); mc_outcome(bits * 2 + kind);
}
static void diag(void)
{
    int n = mc_range("n", 1, 3), kind = mc_choose("kind", 3), d = mc_range("diag", -n, n), ns = mc_choose("nonsquare", 2); unsigned bits = mc_choose("pattern", 1 << (n * n));
    if (!mc_begin()) return;
    mc_note("hasdiag %s n=%d diag=%d pattern %x nonsquare=%d", spk[kind], n, d, bits, ns); ref_t R; armas_sparse_t *A = sp_make(&R, n, n + ns, bits, kind, 1, 0, 0); int exp = !ns && d > -n && d < n;
    for (int i = 0; i < n; i++) { int j = i + d; if (j >= 0 && j < n && !(bits >> (j * n + i) & 1)) exp = 0; }
    mc_ops(1); EXPECT("hasdiag", !!armassp_hasdiag(A, d) == exp, "reported %d, expected %d", armassp_hasdiag(A, d), exp); EXPECT("null", !armassp_hasdiag(0, 0), "null"); armassp_free(A); mc_outcome(exp);
}
static void making(void)
{
    int r = mc_range("rows", 0, 3), c = mc_range("cols", 0, 3), nnz = mc_range("nnz", 0, 3), kind = mc_choose("kind", 3), slack = MC_PICK("slack", -8, -1, 0, 8);
    if (!mc_begin()) return;
    mc_note("make/init %s %dx%d nnz=%d slack=%d", spk[kind], r, c, nnz, slack); long live0 = mc_live();
    size_t need = armassp_bytes_needed(r, c, nnz, kind), has = (long)need + slack < 0 ? 0 : need + slack; char *buf = malloc(has + 16); memset(buf, 0x5a, has + 16); armas_sparse_t A; memset(&A, 0xa5, sizeof A);
    int rc = armassp_make(&A, r, c, nnz, kind, buf, has); mc_ops(2);
    EXPECT("make", (rc == 0) == (has >= need), "returned %d with %zu of %zu bytes", rc, has, need);
    for (int i = 0; i < 16; i++) EXPECT("outside", buf[has + i] == 0x5a, "byte %d after the block written", i);
    if (rc == 0 && r && c) { ref_t R = {.r = r, .c = c}; if (!sp_check("make", &A, &R, 0, kind, 1)) return; EXPECT("capacity", A.size == nnz, "size %d", A.size); }
    free(buf); armas_sparse_t B; EXPECT("init", armassp_init(&B, r, c, nnz, kind) == &B, "init failed"); EXPECT("size", armassp_size(&B) == r * c && armassp_size(0) == 0, "size");
    if (r && c) { ref_t R = {.r = r, .c = c}; if (!sp_check("init", &B, &R, 0, kind, 1)) return; EXPECT("nbytes", armassp_nbytes(&B) == need, "nbytes"); }
    armassp_release(&B); EXPECT("released", B.rows == 0 && B.elems.v == 0 && B.nnz == 0, "not cleared"); armassp_release(&B); armassp_free(0);
    EXPECT("init-neg", armassp_new(-1, 2, 1, kind) == 0 && armassp_new(2, 2, -1, kind) == 0, "negative dimensions"); EXPECT("leak", mc_live() == live0, "%ld left", mc_live() - live0); mc_outcome(need);
}
static void growth(void)
{
    int cap = MC_PICK("capacity", 0, 1, 63, 64, 65), n = MC_PICK("n", 1, 64, 65, 66, 129, 130, 200), kind = mc_choose("kind", 2);
    if (!mc_begin()) return;
    mc_note("growth capacity=%d entries=%d", cap, n); long live0 = mc_live(); armas_sparse_t *A = armassp_new(5, 7, cap, ARMASSP_COO), *B; ref_t R = {.r = 5, .c = 7};
    for (int k = 0; k < n; k++) { int i = k * 3 % 5, j = k * 5 % 7; EXPECT("append", armassp_append(A, i, j, k + 1) == 0, "append %d", k); R.v[i][j] += k + 1; mc_ops(1); }
    if (!sp_check("grown", A, &R, n, ARMASSP_COO, 0)) return;
    B = armassp_convert(A, kind); if (!sp_check("converted", B, &R, n, kind, 1)) return; armassp_free(A); armassp_free(B); EXPECT("leak", mc_live() == live0, "leak"); mc_outcome(n);
}
void mc_body(void)
{
    switch (mc_choose("family", 5)) { case 0: appends(); break; case 1: patterns(); break; case 2: diag(); break; case 3: making(); break; default: growth(); }
}
