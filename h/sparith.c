/* C21: sparse arithmetic equals the dense reference */
#define RM 22
#include "sp.h"
#include "work.h"
/* half of the calls go without a configuration block */
#define CFP(k) ((k) & 1 ? (armas_conf_t *)0 : &cf)
const char *mc_name = "sparith";
static armas_conf_t cf;
void mc_setup(void) {}
static const double AL[] = {1, 0, -2}, BE[] = {0, 1, 2};
static unsigned pick_bits(int cells, int full)
{
    /* all patterns up to 9 cells in quick tier, otherwise a structured set */
    if (cells <= full) return mc_choose("pattern", 1 << cells);
    static const unsigned st[] = {0, ~0u, 0x5555, 0xaaaa, 0x1248, 0x8421, 0x000f, 0x1111, 0x7fff, 0x8000, 0xcc33, 0x0660, 0x1, 0x37ec, 0x8ce7};
    return st[mc_choose("pattern", 15)] & ((1u << cells) - 1);
}
static double opv(const ref_t *R, int t, int i, int j) { return t ? R->v[j][i] : R->v[i][j]; }
static void t_mv(void)
{
    int r = mc_range("rows", 1, thorough() ? 4 : 3), c = mc_range("cols", 1, thorough() ? 4 : 3);
    unsigned bits = pick_bits(r * c, thorough() ? 12 : 9); int kind = mc_choose("kind", 2), dup = mc_choose("dup", 2), tr = mc_choose("trans", 2);
    int al = mc_choose("alpha", 3), be = mc_choose("beta", 3), kx = 0, ky = 0;
    if (bits == 0 || bits % 7 == 3 || thorough()) { kx = mc_choose("xk", NVK); ky = mc_choose("yk", NVK); } else { int k = (bits + al + be) % (NVK * NVK); kx = k / NVK; ky = k % NVK; }
    if (!mc_begin()) return;
    mc_note("y = %g*y + %g*op(A)*x, A %dx%d pattern %x %s%s trans=%d x %s y %s", BE[be], AL[al], r, c, bits, spk[kind], dup ? " duplicate" : "", tr, vkname[kx], vkname[ky]);
    ref_t R; armas_sparse_t *A = sp_make(&R, r, c, bits, kind, bits & 3, dup, 2);
    int nx = tr ? r : c, ny = tr ? c : r; gm_t x, y; gv_new(&x, nx, kx); gv_new(&y, ny, ky);
    double *w = mc_mem(sizeof(double) * ny);
    for (int i = 0; i < nx; i++) V(&x, i) = i * 3 % 5 - 1.0; for (int i = 0; i < ny; i++) V(&y, i) = BE[be] == 0 && i % 2 ? NAN : 2.0 * i - 3;
    for (int i = 0; i < ny; i++) { double s = 0; for (int j = 0; j < nx; j++) s += opv(&R, tr, i, j) * V(&x, j); w[i] = (BE[be] == 0 ? 0 : BE[be] * V(&y, i)) + AL[al] * s; }
    gm_snap(&x); gm_snap(&y); cf.error = 0;
    int rc = armassp_mvmult(BE[be], &y.m, AL[al], A, &x.m, tr ? ARMAS_TRANS : 0, CFP(al + be)); mc_ops(1);
    EXPECT("mvmult-rc", rc == 0, "mvmult returned %d error %d", rc, cf.error);
    gm_same(&x, "x"); gm_guard(&y, "y");
    for (int i = 0; i < ny; i++) EXPECT("mvmult", V(&y, i) == w[i], "y[%d] is %g, expected %g", i, V(&y, i), w[i]);
    if (!sp_check("A", A, &R, -1, kind, 0)) return;
    armassp_free(A); mc_outcome(mc_hash(w, sizeof(double) * ny, 1));
}
static void t_tri(void)
{
    int n = mc_range("n", 1, thorough() ? 4 : 3), which = mc_choose("op", 3); /* sym, trm, solve */
    unsigned bits = pick_bits(n * n, thorough() ? 16 : 9); int kind = mc_choose("kind", 2), dup = mc_choose("dup", 2), up = mc_choose("upper", 2), tr = which ? mc_choose("trans", 2) : 0, un = which ? mc_choose("unit", 2) : 0;
    int al = mc_choose("alpha", 3), be = which ? 0 : mc_choose("beta", 3), kx, ky;
    if (thorough() && n < 4) { kx = mc_choose("xk", NVK); ky = which ? 0 : mc_choose("yk", NVK); } else { int k = (bits * 5 + al + be) % (NVK * NVK); kx = k / NVK; ky = k % NVK; }
    if (!mc_begin()) return;
    static const char *nm[] = {"mvmult_sym", "mvmult_trm", "mvsolve_trm"};
    mc_note("%s n=%d pattern %x %s%s %s trans=%d unit=%d alpha=%g beta=%g x %s", nm[which], n, bits, spk[kind], dup ? " duplicate" : "", up ? "upper" : "lower", tr, un, AL[al], BE[be], vkname[kx]);
    ref_t R, T; armas_sparse_t *A = sp_make(&R, n, n, bits, kind, bits % 3, dup, 1);
    int sing = 0; if (which == 2) { /* powers of two on the diagonal make the division exact */
        for (int k = 0; k < n; k++) { int f = 1; R.v[k][k] = 0; for (int p = A->ptr[k]; p < A->ptr[k + 1]; p++) if (A->ix[p] == k) { A->elems.v[p] = f ? (k % 2 ? -2 : 4) : 0; f = 0; R.v[k][k] += A->elems.v[p]; } if (R.v[k][k] == 0) sing = 1; } if (un) sing = 0; }
    memset(&T, 0, sizeof T); T.r = T.c = n;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { int in = up ? i <= j : i >= j;
        if (which == 0) T.v[i][j] = in ? R.v[i][j] : R.v[j][i]; else T.v[i][j] = i == j && un ? 1 : in ? R.v[i][j] : 0; }
    gm_t x, y; gv_new(&x, n, kx); gv_new(&y, n, ky); double *w = mc_mem(sizeof(double) * n);
    for (int i = 0; i < n; i++) V(&x, i) = i * 3 % 5 - 1.0, V(&y, i) = BE[be] == 0 && i % 2 ? NAN : 2.0 * i - 3;
    int f = (up ? ARMAS_UPPER : ARMAS_LOWER) | (tr ? ARMAS_TRANS : 0) | (un ? ARMAS_UNIT : 0), rc; cf.error = 0;
    for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) s += opv(&T, tr, i, j) * V(&x, j); w[i] = AL[al] * s + (which ? 0 : BE[be] == 0 ? 0 : BE[be] * V(&y, i)); }
    if (which == 2) { /* op(T) X = alpha x: choose the solution, build the right hand side */
        for (int i = 0; i < n; i++) w[i] = AL[al] * V(&x, i);
        double b[4] = {0}; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) b[i] += opv(&T, tr, i, j) * V(&x, j);
        for (int i = 0; i < n; i++) V(&x, i) = b[i];
    }
    gm_snap(&x); gm_snap(&y);
    if (which == 0) rc = armassp_mvmult_sym(BE[be], &y.m, AL[al], A, &x.m, f, CFP(al + be));
    else if (which == 1) rc = armassp_mvmult_trm(&x.m, AL[al], A, f, CFP(al));
    else rc = armassp_mvsolve_trm(&x.m, AL[al], A, f, CFP(al)); if (!CFP(al)) cf.error = armas_conf_default()->error;
    mc_ops(1);
    if (sing) { EXPECT("singular", rc < 0 && cf.error == ARMAS_ESINGULAR, "singular system: returned %d error %d", rc, cf.error); gm_same(&x, "x"); }
    else { EXPECT("rc", rc == 0, "%s returned %d error %d", nm[which], rc, cf.error);
        gm_t *o = which ? &x : &y; gm_guard(o, "result"); if (!which) gm_same(&x, "x");
        for (int i = 0; i < n; i++) EXPECT(nm[which], V(o, i) == w[i], "%s: element %d is %g, expected %g", nm[which], i, V(o, i), w[i]); }
    if (!sp_check("A", A, &R, -1, kind, 0)) return;
    armassp_free(A); mc_outcome(mc_hash(w, sizeof(double) * n, which));
}
static int count(const ref_t *R) { int n = 0; for (int i = 0; i < R->r; i++) for (int j = 0; j < R->c; j++) n += R->v[i][j] != 0; return n; }
static void t_addmul(void)
{
    int mul = mc_choose("op", 2); static const int SH[][3] = {{1, 1, 1}, {1, 2, 1}, {2, 2, 2}, {2, 1, 3}, {2, 3, 2}, {3, 2, 2}, {1, 3, 3}, {3, 3, 3}, {3, 1, 3}, {4, 3, 2}};
    int s = mc_choose("shape", mul ? 10 : 7), ta = mc_choose("ta", 2), tb = mc_choose("tb", 2), m = SH[s][0], k = SH[s][1], n = SH[s][2];
    int ar = mul ? (ta ? k : m) : (ta ? k : m), ac = mul ? (ta ? m : k) : (ta ? m : k), br = mul ? (tb ? n : k) : (tb ? k : m), bc = mul ? (tb ? k : n) : (tb ? m : k);
    int lim = thorough() ? 6 : 4; unsigned pa = pick_bits(ar * ac, lim), pb = pick_bits(br * bc, lim);
    int kind = mc_choose("kind", 2), dup = mc_choose("dup", 2), al = mc_choose("alpha", 3), be = mul ? 1 : mc_choose("beta", 3), how = mc_choose("how", 5);
    if (!mc_begin()) return;
    double alpha = AL[al], beta = be == 2 ? -2 : BE[be];
    mc_note("%s A %dx%d %x%s B %dx%d %x%s %s%s alpha=%g beta=%g how=%d", mul ? "mult" : "add", ar, ac, pa, ta ? "'" : "", br, bc, pb, tb ? "'" : "", spk[kind], dup ? " duplicate" : "", alpha, beta, how);
    ref_t RA, RB, RC; armas_sparse_t *A = sp_make(&RA, ar, ac, pa, kind, pa & 3, dup, 1), *B = sp_make(&RB, br, bc, pb, kind, pb % 5, dup, 0), *C = 0;
    memset(&RC, 0, sizeof RC); RC.r = m; RC.c = mul ? n : k; int st = 0;
    for (int i = 0; i < RC.r; i++) for (int j = 0; j < RC.c; j++) {
        if (mul) { double d = 0; int hit = 0; for (int q = 0; q < k; q++) { d += opv(&RA, ta, i, q) * opv(&RB, tb, q, j); hit |= opv(&RA, ta, i, q) != 0 && opv(&RB, tb, q, j) != 0; } RC.v[i][j] = alpha * d; st += hit; }
        else { RC.v[i][j] = alpha * opv(&RA, ta, i, j) + beta * opv(&RB, tb, i, j); st += opv(&RA, ta, i, j) != 0 || opv(&RB, tb, i, j) != 0; } }
    int bits = (ta ? ARMAS_TRANSA : 0) | (tb ? ARMAS_TRANSB : 0), rc; cf.error = 0; mc_ops(1);
    if (how == 0) {
        C = mul ? armassp_mult(alpha, A, B, bits, CFP(bits != 0)) : armassp_add(alpha, A, beta, B, bits, CFP(bits != 0));
        EXPECT("new", C != 0, "no result, error %d", cf.error);
        if (!sp_check("C", C, &RC, -1, kind, 1)) return;
    } else {
        int cap = how == 1 ? RC.r * RC.c + 1 : count(&RC) + 20; if (how == 4) cap = count(&RC) - 1; if (how == 4 && cap < 0) cap = 0;
        ref_t J; C = sp_make(&J, RC.r, RC.c, 0, kind, 0, 0, cap); cap = C->size; /* alignment may leave more room */
        if (how == 2) { C->nnz = cap < 2 ? cap : 2; for (int i = 0; i < C->nnz; i++) C->ix[i] = 0, C->elems.v[i] = 55; for (int i = 1; i <= C->nptr; i++) C->ptr[i] = C->nnz; } /* used before */
        armas_wbuf_t q = ARMAS_WBNULL; rc = mul ? armassp_multto_w(C, alpha, A, B, bits, &q, &cf) : armassp_addto_w(C, alpha, A, beta, B, bits, &q, &cf);
        EXPECT("query", rc == 0 && q.bytes > 0, "size query returned %d, %zu bytes", rc, q.bytes);
        size_t need = q.bytes; armas_wbuf_t *wb = work(how == 3 ? need - 1 : need);
        rc = mul ? armassp_multto_w(C, alpha, A, B, bits, wb, &cf) : armassp_addto_w(C, alpha, A, beta, B, bits, wb, &cf);
        if (how == 3) EXPECT("short-work", rc < 0 && cf.error == ARMAS_EWORK, "short workspace: returned %d error %d", rc, cf.error);
        else if (how == 4 && count(&RC) > cap) EXPECT("capacity", rc < 0 && cf.error != 0 && C->nnz <= C->size, "target without room: returned %d error %d nnz %d size %d", rc, cf.error, C->nnz, C->size);
        else if (how == 4 && rc < 0) EXPECT("capacity", cf.error != 0 && C->nnz <= C->size, "error %d", cf.error); /* structural zeros may need room too */
        else { EXPECT("rc", rc == 0, "returned %d error %d (capacity %d, structural %d)", rc, cf.error, cap, st); if (!sp_check("C", C, &RC, -1, kind, 1)) return; }
        workdone();
    }
    if (!sp_check("A", A, &RA, -1, kind, 0) || !sp_check("B", B, &RB, -1, kind, 0)) return;
    armassp_free(A); armassp_free(B); armassp_free(C); mc_outcome(mc_hash(&RC, sizeof RC, mul));
}
/* larger matrices: results with many more entries than the operands, empty parts, every structure against every other */
static armas_sparse_t *structured(ref_t *R, int r, int c, int pat, int kind)
{
    R->r = r; R->c = c; armas_sparse_t *C = armassp_new(r, c, r * c + 1, ARMASSP_COO), *A;
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
        int on = pat == 0 ? j == 0 : pat == 1 ? i == 0 : pat == 2 ? 1 : pat == 3 ? abs(i - j) < 2 : pat == 4 ? i == j || i == r - 1 || j == c - 1 : pat == 5 ? (i * 5 + j * 3) % 7 == 0 : pat == 6 ? j == (i * 7 + 2) % c : i >= r / 2 && j < c / 2;
        R->v[i][j] = on ? (i * 3 + j * 5 + pat) % 9 - 4 + ((i * 3 + j * 5 + pat) % 9 == 4) : 0; if (on) armassp_append(C, i, j, R->v[i][j]); }
    A = armassp_convert(C, kind); armassp_free(C); return A;
}
static void t_big(void)
{
    static const int SH[][3] = {{20, 20, 20}, {17, 9, 22}, {22, 3, 18}, {5, 21, 6}};
    int mul = mc_choose("op", 2), s = mc_choose("shape", 4), ta = mc_choose("ta", 2), tb = mc_choose("tb", 2), pa = mc_choose("A", 8), pb = mc_choose("B", 8), kind = mc_choose("kind", 2), al = mc_choose("alpha", 3), m = SH[s][0], k = SH[s][1], n = SH[s][2], bits = (ta ? ARMAS_TRANSA : 0) | (tb ? ARMAS_TRANSB : 0);
    if (!mc_begin()) return;
    mc_note("%s %d %d %d A %d%s B %d%s %s alpha=%g", mul ? "mult" : "add", m, k, n, pa, ta ? "'" : "", pb, tb ? "'" : "", spk[kind], AL[al]);
    ref_t RA, RB, RC; memset(&RC, 0, sizeof RC);
    armas_sparse_t *A = structured(&RA, ta ? k : m, ta ? m : k, pa, kind), *B = mul ? structured(&RB, tb ? n : k, tb ? k : n, pb, kind) : structured(&RB, tb ? k : m, tb ? m : k, pb, kind), *C;
    RC.r = m; RC.c = mul ? n : k;
    for (int i = 0; i < RC.r; i++) for (int j = 0; j < RC.c; j++) { double d = 0; if (mul) for (int q = 0; q < k; q++) d += opv(&RA, ta, i, q) * opv(&RB, tb, q, j); RC.v[i][j] = mul ? AL[al] * d : AL[al] * opv(&RA, ta, i, j) + 3 * opv(&RB, tb, i, j); }
    cf.error = 0; mc_ops(1);
    C = mul ? armassp_mult(AL[al], A, B, bits, &cf) : armassp_add(AL[al], A, 3, B, bits, &cf);
    EXPECT("new", C != 0, "no result, error %d", cf.error);
    if (!sp_check("C", C, &RC, -1, kind, 1)) return;
    if (!sp_check("A", A, &RA, -1, kind, 1) || !sp_check("B", B, &RB, -1, kind, 1)) return;
    gm_t x, y, z; gv_new(&x, RC.c, VC); gv_new(&y, RC.r, VR); gv_new(&z, RC.c, VC);
    for (int j = 0; j < RC.c; j++) V(&x, j) = j % 5 - 2; for (int i = 0; i < RC.r; i++) V(&y, i) = i % 3;
    int rc = armassp_mvmult(2, &y.m, 1, C, &x.m, 0, &cf); EXPECT("rc", rc == 0, "mvmult returned %d", rc);
    for (int i = 0; i < RC.r; i++) { double e = 2 * (i % 3); for (int j = 0; j < RC.c; j++) e += RC.v[i][j] * (j % 5 - 2); EXPECT("mv", V(&y, i) == e, "element %d of the product is %g, expected %g", i, V(&y, i), e); }
    rc = armassp_mvmult(0, &z.m, 1, C, &y.m, ARMAS_TRANS, &cf); EXPECT("rc", rc == 0, "mvmult returned %d", rc);
    for (int j = 0; j < RC.c; j++) { double e = 0; for (int i = 0; i < RC.r; i++) e += RC.v[i][j] * V(&y, i); EXPECT("mv", V(&z, j) == e, "element %d of the transposed product is %g, expected %g", j, V(&z, j), e); }
    armassp_free(A); armassp_free(B); armassp_free(C); mc_outcome(mc_hash(&RC, sizeof RC, mul));
}
static void t_reject(void)
{
    int op = mc_choose("op", 6), ar = mc_range("ar", 1, 3), ac = mc_range("ac", 1, 3), br = mc_range("br", 1, 3), bc = mc_range("bc", 1, 3), ka = mc_choose("ka", 3), kb = mc_choose("kb", 3), ta = mc_choose("ta", 2), tb = mc_choose("tb", 2);
    if (!mc_begin()) return;
    mc_note("shape check op %d A %dx%d %s B/x %dx%d %s ta=%d tb=%d", op, ar, ac, spk[ka], br, bc, spk[kb], ta, tb);
    int r = ta ? ac : ar, c = ta ? ar : ac, r2 = tb ? bc : br, c2 = tb ? br : bc; ref_t RA, RB; int rc = 0, bad; cf.error = 0;
    armas_sparse_t *A = sp_make(&RA, ar, ac, ~0u >> (32 - ar * ac), ka, 1, 0, 0); gm_t X, Y; gm_new(&X, br, bc, LP); gm_ints(&X, 3, -3, 3); gm_new(&Y, tb ? bc : br, tb ? br : bc, LP); gm_ints(&Y, 4, -3, 3); gm_snap(&X); gm_snap(&Y);
    int xn = br * bc, yn = xn, vec = br == 1 || bc == 1; mc_ops(1);
    if (op < 2) {
        if (op == 1 && ta == 0 && tb == 0 && ka == kb && ka != 2 && ac == br) { armassp_free(A); return; }
        armas_sparse_t *B = sp_make(&RB, br, bc, ~0u >> (32 - br * bc), kb, 2, 0, 0);
        bad = ka == 2 || kb == 2 || ka != kb || (op == 0 ? (r != r2 || c != c2) : c != r2);
        armas_sparse_t *C = op == 0 ? armassp_add(1, A, 1, B, (ta ? ARMAS_TRANSA : 0) | (tb ? ARMAS_TRANSB : 0), &cf) : armassp_mult(1, A, B, (ta ? ARMAS_TRANSA : 0) | (tb ? ARMAS_TRANSB : 0), &cf);
        EXPECT("reject-new", (C == 0) == bad && (!bad || cf.error != 0), "result %p error %d for %s operands", (void *)C, cf.error, bad ? "non-conforming" : "conforming");
        if (C) armassp_free(C);
        /* target of a wrong shape or kind */
        if (!bad) for (int v = 0; v < 3; v++) { int cr = r + (v == 0), cc = (op == 0 ? c : c2) + (v == 1), ck = v == 2 ? !ka : ka; ref_t J; C = sp_make(&J, cr, cc, 0, ck, 0, 0, 20); armas_wbuf_t w = ARMAS_WBNULL; armas_walloc(&w, 4096); cf.error = 0;
            rc = op == 0 ? armassp_addto_w(C, 1, A, 1, B, (ta ? ARMAS_TRANSA : 0) | (tb ? ARMAS_TRANSB : 0), &w, &cf) : armassp_multto_w(C, 1, A, B, (ta ? ARMAS_TRANSA : 0) | (tb ? ARMAS_TRANSB : 0), &w, &cf);
            EXPECT("reject-target", rc < 0 && cf.error != 0, "target %dx%d %s accepted", cr, cc, spk[ck]); armas_wrelease(&w); armassp_free(C); }
        armassp_free(B);
    } else {
        if (op == 2) { bad = ka == 2 || !vec || xn != c || yn != r; rc = armassp_mvmult(1, &Y.m, 1, A, &X.m, ta ? ARMAS_TRANS : 0, &cf); }
        else if (op == 3) { bad = ka == 2 || !vec || ar != ac || xn != ar; rc = armassp_mvmult_sym(1, &Y.m, 1, A, &X.m, ta ? ARMAS_UPPER : ARMAS_LOWER, &cf); }
        else if (op == 4) { bad = ka == 2 || !vec || ar != ac || xn != ar; rc = armassp_mvmult_trm(&X.m, 1, A, ta ? ARMAS_UPPER : ARMAS_LOWER, &cf); }
        else { bad = ka == 2 || !vec || ar != ac || xn != ar; for (int i = 0; ka != 2 && i < A->nnz; i++) A->elems.v[i] = 2; rc = armassp_mvsolve_trm(&X.m, 1, A, ta ? ARMAS_UPPER : ARMAS_LOWER, &cf); }
        EXPECT("reject", (rc < 0) == bad && (!bad || cf.error != 0), "returned %d error %d for %s operands", rc, cf.error, bad ? "non-conforming" : "conforming");
        if (bad) { gm_same(&X, "x"); gm_same(&Y, "y"); } else { gm_guard(&X, "x"); gm_guard(&Y, "y"); }
    }
    armassp_free(A);
}
/* sparse accumulator: every sequence of operations against a plain list of touched positions */
static void t_accum(void)
{
    enum { N = 3 }; static const double XV[4][3] = {{1, -2, 4}, {3, 5, 0}, {8, 0, 0}, {0, 0, 0}}; static const int XI[4][3] = {{0, 1, 2}, {0, 2, 0}, {1, 0, 0}, {0, 0, 0}}, XN[4] = {3, 2, 1, 0};
    int how = mc_choose("storage", 2), len = mc_range("len", 1, mc_thorough ? 5 : 4), room = mc_choose("room", 3) == 0 ? 2 : 20, lim = MC_PICK("maxnz", 100, 1, 3), op[6], arg[6]; char t[96] = "";
    for (int i = 0; i < len; i++) { op[i] = mc_choose("op", 5); arg[i] = op[i] == 0 ? mc_choose("k", N) : op[i] == 1 ? mc_choose("x", 4) : op[i] == 2 ? mc_choose("pair", 4) : 0; sprintf(t + strlen(t), " %d:%d", op[i], arg[i]); }
    if (!mc_begin()) return;
    mc_note("accumulator storage=%d room=%d maxnz=%d:%s (0 addpos 1 scatter 2 dot 3 gather 4 clear)", how, room, lim, t);
    armas_accum_t a; size_t nb = armas_accum_bytes(N); char *buf = mc_mem(nb + 64); ref_t J; armas_sparse_t *C = sp_make(&J, 6, 6, 0, 1, 0, 0, room); C->nnz = 0; room = C->size;
    EXPECT("bytes", nb >= N * (sizeof(double) + 2 * sizeof(int)), "%zu bytes for %d elements", nb, N);
    if (how == 0) EXPECT("allocate", armas_accum_allocate(&a, N) == 0, "allocation failed");
    else { memset(buf, 0x55, nb + 64); EXPECT("make-short", armas_accum_make(&a, N, buf, nb - 1) == 0, "short buffer accepted"); EXPECT("make", armas_accum_make(&a, N, buf, nb) == nb, "buffer of %zu bytes refused", nb); }
    armas_accum_clear(&a); int mark = 0, q[16], nq = 0, col = 0, nz = 0; double v[N] = {0}, ev[40]; int ex[40]; uint64_t h = how; mc_ops(len);
    for (int i = 0; i < len; i++) {
        armas_spvec_t x, y; double b = 2; int k = arg[i];
        #define TOUCH(K, VAL) do { int K_ = (K), f_ = 0; for (int z = 0; z < nq; z++) f_ |= q[z] == K_; if (!f_) q[nq++] = K_, v[K_] = (VAL); else v[K_] += (VAL); } while (0)
        switch (op[i]) {
        case 0: armas_accum_addpos(&a, k, i + 1, mark); TOUCH(k, i + 1); break;
        case 1: x.elems = (double *)XV[k]; x.ix = (int *)XI[k]; x.nz = XN[k]; armas_accum_scatter(&a, &x, b, mark); for (int z = 0; z < XN[k]; z++) TOUCH(XI[k][z], b * XV[k][z]); break;
        case 2: { int p = k / 2, r = 1 + k % 2; x.elems = (double *)XV[p]; x.ix = (int *)XI[p]; x.nz = XN[p]; y.elems = (double *)XV[r]; y.ix = (int *)XI[r]; y.nz = XN[r]; armas_accum_dot(&a, 1, &x, &y, mark);
            double s = 0; int hit = 0; for (int z = 0; z < XN[p]; z++) for (int w = 0; w < XN[r]; w++) if (XI[p][z] == XI[r][w]) s += XV[p][z] * XV[r][w], hit = 1; if (hit) TOUCH(1, s); break; }
        case 3: armas_accum_gather(C, 3, &a, col, lim); EXPECT("gather-start", C->ptr[col] == nz, "column %d starts at %d, expected %d", col, C->ptr[col], nz);
            for (int z = 0; z < nq && nz < room && nz < lim; z++, nz++) ex[nz] = q[z], ev[nz] = 3 * v[q[z]];
            EXPECT("gather-count", C->nnz == nz, "%d elements, expected %d", C->nnz, nz); EXPECT("tail", a.tail == nq, "%d positions queued, expected %d", a.tail, nq); a.tail = 0; nq = 0; mark++; col++; break;
        case 4: armas_accum_clear(&a); a.tail = 0; nq = 0; mark = i % 2 ? 0 : 5; break;
        }
        EXPECT("queue", a.tail == nq, "%d positions queued, expected %d", a.tail, nq); for (int z = 0; z < nq; z++) EXPECT("value", a.queue[z] == q[z] && a.elems[q[z]] == v[q[z]], "queued %d value %g, expected %d value %g", a.queue[z], a.elems[a.queue[z] % N], q[z], v[q[z]]);
    }
    for (int z = 0; z < nz; z++) { EXPECT("gathered", C->ix[z] == ex[z] && C->elems.v[z] == ev[z], "element %d is %d:%g, expected %d:%g", z, C->ix[z], C->elems.v[z], ex[z], ev[z]); h = h * 31 + ex[z] + (int64_t)ev[z]; }
    if (how == 0) armas_accum_release(&a); else for (int z = 0; z < 64; z++) EXPECT("outside", buf[nb + z] == 0x55, "byte %d after the buffer changed", z);
    C->nnz = 0; armassp_free(C); mc_outcome(h);
}
void mc_body(void)
{
    cf = *armas_conf_default(); long l0 = mc_live();
    switch (mc_choose("family", 6)) { case 5: t_big(); break; case 0: t_mv(); break; case 1: t_tri(); break; case 2: t_addmul(); break; case 3: t_reject(); break; case 4: t_accum(); break; }
    if (mc_failed()) return;
    mc_cmp(1); if (mc_live() != l0) mc_fail("leak", "%ld blocks not released", mc_live() - l0);
}
