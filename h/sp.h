#ifndef SP_H
#define SP_H
#include "mc.h"
#include "cfg.h"
#include "num.h"
#include "vecs.h"
#include "float64/names_sparse.h"
#include "sparse.h"
#ifndef RM
#define RM 16
#endif
typedef struct { int r, c; double v[RM][RM]; } ref_t;
#define EXPECT(key, cond, ...) do { mc_cmp(1); if (!(cond)) { mc_fail(key, __VA_ARGS__); return; } } while (0)
#define EXPECTR(key, cond, ...) do { mc_cmp(1); if (!(cond)) { mc_fail(key, __VA_ARGS__); return 0; } } while (0)
static int thorough(void) { static int t = -1; if (t < 0) { const char *e = getenv("VERIF_TIER"); t = e && !strcmp(e, "thorough"); } return t; }
/* structure and content of a sparse matrix against the reference; entries < 0: number of entries unknown */
static int sp_check(const char *what, const armas_sparse_t *A, const ref_t *R, int entries, int kind, int sorted)
{
    EXPECTR("null", A != 0, "%s: null result", what);
    EXPECTR("kind", A->kind == kind, "%s: kind is %d, expected %d", what, A->kind, kind);
    EXPECTR("dims", A->rows == R->r && A->cols == R->c, "%s: %dx%d, expected %dx%d", what, A->rows, A->cols, R->r, R->c);
    EXPECTR("nnz", A->nnz >= 0 && A->nnz <= A->size && (entries < 0 || A->nnz == entries), "%s: %d entries (size %d), expected %d", what, A->nnz, A->size, entries);
    int mc_ = R->c > 0 ? R->c : 1, mr_ = R->r > 0 ? R->r : 1; double (*M)[mc_] = mc_mem(sizeof(double) * mr_ * mc_); memset(M, 0, sizeof(double) * mr_ * mc_);
    if (kind == ARMASSP_COO) {
        for (int k = 0; k < A->nnz; k++) { coo_elem_t *e = &A->elems.ep[k]; EXPECTR("index", e->i >= 0 && e->i < R->r && e->j >= 0 && e->j < R->c, "%s: entry %d at (%d,%d)", what, k, e->i, e->j); M[e->i][e->j] += e->val; }
    } else {
        int n = kind == ARMASSP_CSR ? R->r : R->c, m = kind == ARMASSP_CSR ? R->c : R->r;
        EXPECTR("nptr", A->nptr == n && A->ptr[0] == 0 && A->ptr[n] == A->nnz, "%s: nptr=%d (%d) ptr[0]=%d ptr[n]=%d nnz=%d", what, A->nptr, n, A->ptr[0], A->ptr[n], A->nnz);
        for (int k = 0; k < n; k++) EXPECTR("ptr", A->ptr[k] <= A->ptr[k + 1], "%s: ptr[%d] > ptr[%d]", what, k, k + 1);
        for (int k = 0; k < n; k++) for (int p = A->ptr[k]; p < A->ptr[k + 1]; p++) {
            EXPECTR("index", A->ix[p] >= 0 && A->ix[p] < m, "%s: index %d at %d", what, A->ix[p], p);
            if (sorted && p > A->ptr[k]) EXPECTR("sorted", A->ix[p - 1] <= A->ix[p], "%s: vector %d not in index order", what, k);
            if (kind == ARMASSP_CSR) M[k][A->ix[p]] += A->elems.v[p]; else M[A->ix[p]][k] += A->elems.v[p];
        }
        for (int k = 0; k < n; k++) for (int i = 0; i < m; i++) if (sorted) {
            int p = armassp_nz(A, k, i), q = -1; for (int t = A->ptr[k + 1] - 1; t >= A->ptr[k]; t--) if (A->ix[t] == i) q = t;
            EXPECTR("nz", p == q, "%s: armassp_nz(%d,%d) is %d, expected %d", what, k, i, p, q);
        }
        armas_spvec_t x; for (int k = 0; k < n; k++) EXPECTR("vector", armassp_vector(&x, A, k)->nz == A->ptr[k + 1] - A->ptr[k] && x.ix == A->ix + A->ptr[k] && x.elems == A->elems.v + A->ptr[k] && armassp_len(A, k) == x.nz, "%s: vector %d", what, k);
    }
    for (int i = 0; i < R->r; i++) for (int j = 0; j < R->c; j++) EXPECTR("content", M[i][j] == R->v[i][j], "%s: element (%d,%d) is %g, expected %g", what, i, j, M[i][j], R->v[i][j]);
    return 1;
}
/* compressed matrix built by hand from pattern bits; values from a small integer table */
static double sp_val(int i, int j, int seed) { static const double t[] = {1, -2, 3, 5, -1, 4, 2, -3, 7}; return t[(i * 4 + j * 3 + seed * 2 + i * j) % 9]; }
static armas_sparse_t *sp_make(ref_t *R, int r, int c, unsigned bits, int kind, int seed, int dup, int extra)
{
    memset(R, 0, sizeof(*R)); R->r = r; R->c = c; int n = 0, first = 1;
    for (int b = 0; b < r * c; b++) if (bits >> b & 1) n++;
    if (dup && n) n++;
    armas_sparse_t *A = armassp_new(r, c, n + extra, kind); if (!A) return 0;
    if (kind == ARMASSP_COO) {
        for (int b = 0; b < r * c; b++) if (bits >> b & 1) for (int d = 0; d < 1 + (dup && first); d++) { double v = sp_val(b % r, b / r, seed + d); R->v[b % r][b / r] += v; armassp_append(A, b % r, b / r, v); if (d) first = 0; }
        return A;
    }
    int no = kind == ARMASSP_CSR ? r : c, m = kind == ARMASSP_CSR ? c : r;
    for (int k = 0; k < no; k++) {
        A->ptr[k] = A->nnz;
        for (int t = 0; t < m; t++) { int i = kind == ARMASSP_CSR ? k : t, j = kind == ARMASSP_CSR ? t : k; if (bits >> (j * r + i) & 1) for (int d = 0; d < 1 + (dup && first); d++) {
            double v = sp_val(i, j, seed + d); R->v[i][j] += v; A->ix[A->nnz] = t; A->elems.v[A->nnz] = v; A->nnz++; if (d) first = 0; } }
    }
    A->ptr[no] = A->nnz;
    return A;
}
static const char *spk[] = {"CSC", "CSR", "COO"};
#endif
