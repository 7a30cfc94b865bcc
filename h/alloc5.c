/* C05: allocation faults in constructors, converters, sparse operations and iterative solvers */
#include "sp.h"
const char *mc_name = "alloc5";
void mc_setup(void) {}
typedef struct { double v[128]; int n, rc; } res_t; /* rc: 0 success, < 0 refused (status or null result), with e the reported error (-1: no configuration involved) */
static void addv(res_t *r, double x) { if (r->n < 128) r->v[r->n++] = x; }
static void addm(res_t *r, const armas_dense_t *m) { for (int j = 0; j < m->cols; j++) for (int i = 0; i < m->rows; i++) addv(r, armas_get(m, i, j)); }
static void adds(res_t *r, const armas_sparse_t *A) { if (!A) { r->rc = -1; return; } addv(r, A->rows); addv(r, A->cols); addv(r, A->nnz); int n = A->kind == ARMASSP_COO ? 0 : A->nptr; for (int k = 0; k <= n && n; k++) addv(r, A->ptr[k]); for (int p = 0; p < A->nnz; p++) if (A->kind == ARMASSP_COO) { addv(r, A->elems.ep[p].i); addv(r, A->elems.ep[p].j); addv(r, A->elems.ep[p].val); } else { addv(r, A->ix[p]); addv(r, A->elems.v[p]); } }
extern armas_cbuf_t *armas_cbuf_new(size_t, size_t); extern void armas_cbuf_free(armas_cbuf_t *);
static armas_dense_t D, V, B; static ref_t R1, R2; static armas_sparse_t *S1, *S2; static double vb[8]; static int kind, shape;
static void mk(int n) { armas_make(&D, n, n, 8, mc_mem(8 * 64)); armas_make(&V, n, 1, 8, mc_mem(64)); armas_make(&B, n, 1, 8, mc_mem(64)); for (int i = 0; i < n; i++) { armas_set(&V, i, 0, 0); armas_set(&B, i, 0, i + 1); for (int j = 0; j < n; j++) armas_set(&D, i, j, i == j ? 4 + i : 1); } (void)vb; }
static armas_sparse_t *spd(int n) { armas_sparse_t *A = armassp_new(n, n, 3 * n, ARMASSP_COO); for (int i = 0; i < n; i++) { armassp_append(A, i, i, 4 + i); if (i) { armassp_append(A, i, i - 1, -1); armassp_append(A, i - 1, i, -1); } } armas_sparse_t *C = armassp_convert(A, kind == ARMASSP_COO ? ARMASSP_CSR : kind); armassp_free(A); return C; }
enum { NEW, NEWCOPY, PIV, CONF, SPNEW, SPCONV, SPCONVTO, SPTRANS, SPCOPY, SPRESIZE, SPAPPEND, SPSORT, SPADD, SPMULT, CGRAD, CGNR, CGNE, GMRES, PCGRAD, PGMRES, ICHOL, ILU, TODENSE, ACC, CBUF, NSC };
static const char *NM[] = {"armas_alloc", "armas_newcopy", "armas_pivot_new", "armas_conf", "armassp_new", "armassp_convert", "armassp_convert_to", "armassp_transpose", "armassp_mkcopy", "armassp_resize", "armassp_append", "armassp_sort", "armassp_add", "armassp_mult", "armassp_cgrad", "armassp_cgnr", "armassp_cgne", "armassp_gmres", "armassp_pcgrad", "armassp_pgmres", "armassp_icholz", "armassp_iluz", "armassp_todense", "armas_accum_allocate", "armas_cbuf_new"};
/* one call with the k-th allocation failing; everything acquired is released again */
static int one(int sc, int n, int k, res_t *r, int *hit)
{
    memset(r, 0, sizeof *r); mk(n); cfg_set(&CFG_DEFAULT); armas_conf_t cf = *armas_conf_default(); cf.error = 0; cf.maxiter = 50; cf.smult = 1e-12; cf.stop = 1e-12; int useconf = 0; armas_sparse_t *A = 0, *C = 0, *Bs = 0; ref_t *Q = &R1; armassp_precond_t P;
    if (sc >= SPCONV && sc <= SPMULT) { A = sp_make(Q, n, n, 0x6d9b & ((1u << n * n) - 1), kind, 1, 0, 0); if (sc == SPADD || sc == SPMULT) Bs = sp_make(&R2, n, n, 0x97a5 & ((1u << n * n) - 1), kind, 2, 0, 0); }
    if (sc >= CGRAD && sc <= TODENSE) A = spd(n); if (sc == PCGRAD || sc == ICHOL || sc == PGMRES || sc == ILU) C = armassp_mkcopy(A);
    if (sc == PCGRAD) armassp_init_icholz(&P, C, A->kind == ARMASSP_CSR ? ARMAS_LOWER : ARMAS_LOWER); if (sc == PGMRES) armassp_init_iluz(&P, C);
    #define F(e) do { mc_fail_alloc(k); e; *hit = mc_alloc_failed() > 0; mc_fail_alloc(0); } while (0)
    switch (sc) {
    case NEW: { armas_dense_t *m; F(m = armas_alloc(n, n)); if (!m) r->rc = -1; else { addv(r, m->rows); addv(r, m->cols); armas_free(m); } break; }
    case NEWCOPY: { armas_dense_t *m; F(m = armas_newcopy(&D)); if (!m) r->rc = -1; else { addm(r, m); armas_free(m); } break; }
    case PIV: { armas_pivot_t *p; F(p = armas_pivot_new(n)); if (!p) r->rc = -1; else { addv(r, armas_pivot_size(p)); armas_pivot_free(p); } break; }
    case CONF: { armas_dense_t m; armas_dense_t *q; F(q = armas_init(&m, n, n)); if (!q) r->rc = -1; else { addv(r, m.rows); armas_release(&m); } break; }
    case SPNEW: F(C = armassp_new(n, n, n, kind)); if (!C) r->rc = -1; else { addv(r, C->rows); addv(r, C->cols); addv(r, C->nnz); } break;
    case SPCONV: F(C = armassp_convert(A, shape ? ARMASSP_CSC : ARMASSP_CSR)); adds(r, C); break;
    case SPCONVTO: { C = armassp_new(n, n, n * n, shape ? ARMASSP_CSC : ARMASSP_CSR); armas_sparse_t *x; F(x = armassp_convert_to(C, A, C->kind)); if (!x) r->rc = -1; else adds(r, C); break; }
    case SPTRANS: F(C = armassp_transpose(A)); adds(r, C); break;
    case SPCOPY: F(C = armassp_mkcopy(A)); adds(r, C); break;
    case SPRESIZE: if (kind != ARMASSP_COO) break; { int rc; F(rc = armassp_resize(A, A->nnz + 5)); if (rc < 0) r->rc = rc; sp_check("after resize", A, Q, -1, kind, 0); break; }
    case SPAPPEND: if (kind == ARMASSP_COO) { int rc; F(rc = armassp_append(A, 0, 0, 11)); if (rc < 0) { r->rc = rc; sp_check("after refused append", A, Q, -1, kind, 0); } else adds(r, A); } break;
    case SPSORT: { int rc; if (kind == ARMASSP_COO) { F(rc = armassp_sort_to(A, ARMASSP_ROW_ORDER)); } else { F(rc = armassp_sort(A)); } if (rc < 0) r->rc = rc; sp_check("after sort", A, Q, -1, kind, 0); break; }
    case SPADD: useconf = 1; F(C = armassp_add(2, A, 3, Bs, 0, &cf)); adds(r, C); break;
    case SPMULT: useconf = 1; F(C = armassp_mult(2, A, Bs, 0, &cf)); adds(r, C); break;
    case CGRAD: useconf = 1; F(r->rc = armassp_cgrad(&V, A, &B, 0, &cf)); break;
    case CGNR: useconf = 1; F(r->rc = armassp_cgnr(&V, A, &B, &cf)); break;
    case CGNE: useconf = 1; F(r->rc = armassp_cgne(&V, A, &B, &cf)); break;
    case GMRES: useconf = 1; F(r->rc = armassp_gmres(&V, A, &B, &cf)); break;
    case PCGRAD: useconf = 1; F(r->rc = armassp_pcgrad(&V, A, &B, &P, 0, &cf)); break;
    case PGMRES: useconf = 1; F(r->rc = armassp_pgmres(&V, A, &B, &P, &cf)); break;
    case ICHOL: F(r->rc = armassp_icholz(C, ARMAS_LOWER)); if (r->rc >= 0) adds(r, C); break;
    case ILU: F(r->rc = armassp_iluz(C)); if (r->rc >= 0) adds(r, C); break;
    case TODENSE: useconf = 1; F(r->rc = armassp_todense(&D, A, &cf)); if (r->rc >= 0) addm(r, &D); break;
    case ACC: { armas_accum_t a; int rc; F(rc = armas_accum_allocate(&a, 5)); if (rc < 0) r->rc = rc; else armas_accum_release(&a); break; }
    case CBUF: { armas_cbuf_t *c; F(c = armas_cbuf_new(8192, 1024)); if (!c) r->rc = -1; else armas_cbuf_free(c); break; }
    }
    if (r->rc < 0 && useconf && cf.error <= 0) mc_fail("no-error", "%s: refused, error in configuration is %d", NM[sc], cf.error);
    if (r->rc >= 0 && sc >= CGRAD && sc <= PGMRES) { r->rc = 0; addm(r, &V); }
    if (r->rc > 0) r->rc = 0; armassp_free(A); armassp_free(C); armassp_free(Bs); return !mc_failed();
}
void mc_body(void)
{
    int sc = mc_choose("operation", NSC), n = mc_range("n", 1, 4), k0 = mc_choose("fails", 40); kind = mc_choose("kind", 3) == 0 ? ARMASSP_COO : 0; if (kind != ARMASSP_COO) kind = n & 1 ? ARMASSP_CSR : ARMASSP_CSC; shape = mc_choose("target", 2);
    if (!mc_begin()) return;
    mc_note("%s n=%d kind=%d allocation %d fails", NM[sc], n, kind, k0 + 1); if (kind == ARMASSP_COO && (sc == SPADD || sc == SPMULT || sc == SPTRANS)) kind = ARMASSP_CSR;
    res_t *a = mc_mem(sizeof *a), *b = mc_mem(sizeof *b), *c = mc_mem(sizeof *c); int hit; armas_cbuf_get_thread_global(); mc_ops(3); long live0 = mc_live();
    if (!one(sc, n, 0, a, &hit)) return; EXPECT("status", a->rc >= 0, "%s: status %d without failure", NM[sc], a->rc); EXPECT("leak", mc_live() == live0, "%s: %ld blocks leaked without failure", NM[sc], mc_live() - live0);
    if (!one(sc, n, k0 + 1, b, &hit)) return; mc_outcome(sc * 4 + hit * 2 + (b->rc < 0)); EXPECT("leak", mc_live() == live0, "%s: allocation %d fails, %ld blocks leaked", NM[sc], k0 + 1, mc_live() - live0);
    if (b->rc < 0) EXPECT("spurious", hit, "%s: status %d without failure", NM[sc], b->rc); else EXPECT("result", b->n == a->n && !memcmp(a->v, b->v, 8 * a->n), "%s: succeeds with another result although allocation %d failed", NM[sc], k0 + 1);
    if (!one(sc, n, 0, c, &hit)) return; EXPECT("again", c->rc == a->rc && c->n == a->n && !memcmp(a->v, c->v, 8 * a->n), "%s: repeated call gives another result", NM[sc]);
    EXPECT("leak", mc_live() == live0, "%s: %ld blocks leaked by repeated call", NM[sc], mc_live() - live0);
}
