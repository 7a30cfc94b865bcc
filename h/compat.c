// C27: the Fortran and C BLAS entry points against naive references with exact integers
#include "mc.h"
#include <math.h>
#include <string.h>
#include <float.h>

typedef double D;
#define W __attribute__((weak))
extern W D dasum_(int *, D *, int *); extern W void daxpy_(int *, D *, D *, int *, D *, int *);
extern W void dcopy_(int *, D *, int *, D *, int *); extern W D ddot_(int *, D *, int *, D *, int *);
extern W D dnrm2_(int *, D *, int *); extern W void dswap_(int *, D *, int *, D *, int *);
extern W void dscal_(int *, D *, D *, int *); extern W int idamax_(int *, D *, int *);
extern W void drot_(int *, D *, int *, D *, int *, D *, D *); extern W void drotg_(D *, D *, D *, D *);
extern W void dgemv_(char *, int *, int *, D *, D *, int *, D *, int *, D *, D *, int *);
extern W void dger_(int *, int *, D *, D *, int *, D *, int *, D *, int *);
extern W void dsymv_(char *, int *, D *, D *, int *, D *, int *, D *, D *, int *);
extern W void dsyr_(char *, int *, D *, D *, int *, D *, int *);
extern W void dsyr2_(char *, int *, D *, D *, int *, D *, int *, D *, int *);
extern W void dtrmv_(char *, char *, char *, int *, D *, int *, D *, int *);
extern W void dtrsv_(char *, char *, char *, int *, D *, int *, D *, int *);
extern W void dgemm_(char *, char *, int *, int *, int *, D *, D *, int *, D *, int *, D *, D *, int *);
extern W void dsymm_(char *, char *, int *, int *, D *, D *, int *, D *, int *, D *, D *, int *);
extern W void dsyrk_(char *, char *, int *, int *, D *, D *, int *, D *, D *, int *);
extern W void dsyr2k_(char *, char *, int *, int *, D *, D *, int *, D *, int *, D *, D *, int *);
extern W void dtrmm_(char *, char *, char *, char *, int *, int *, D *, D *, int *, D *, int *);
extern W void dtrsm_(char *, char *, char *, char *, int *, int *, D *, D *, int *, D *, int *);
extern W void cblas_dgemm(int, int, int, int, int, int, D, D *, int, D *, int, D, D *, int);
extern W void cblas_dsymm(int, int, int, int, int, D, D *, int, D *, int, D, D *, int);
extern W void cblas_dtrmm(int, int, int, int, int, int, int, D, D *, int, D *, int);
extern W void cblas_dtrsm(int, int, int, int, int, int, int, D, D *, int, D *, int);

#define EXPECT(c, key, ...) do { mc_cmp(1); if (!(c)) mc_fail(key, __VA_ARGS__); } while (0)
#define GUARD 5
typedef struct { D *b, *e; int len, ld, rm, r, c; } bm_t;
typedef struct { D *b, *e; int len, n, inc, base; } bv_t;

static D canary(int i) { return 1e5 + 13.0 * i; }
static void bm_new(bm_t *a, int r, int c, int pad, int rm, int seed, int kind)
{
    a->r = r; a->c = c; a->rm = rm;
    a->ld = (rm ? c : r) + pad;
    if (a->ld < 1) a->ld = 1;
    a->len = 2 * GUARD + a->ld * (rm ? r : c);
    a->b = mc_mem(sizeof(D) * a->len); a->e = mc_mem(sizeof(D) * a->len);
    for (int i = 0; i < a->len; i++) a->b[i] = canary(i);
    for (int i = 0; i < r; i++)
        for (int j = 0; j < c; j++) {
            int v = (7 * i + 3 * j * (j + 1) + 5 * seed + i * j) % 7 - 3;
            if (kind == 1 && i == j) { static const int dg[] = {1, -2, 2, -1}; v = dg[(i + seed) % 4]; }
            a->b[GUARD + (rm ? i * a->ld + j : j * a->ld + i)] = v;
        }
    memcpy(a->e, a->b, sizeof(D) * a->len);
}
#define MX(a, i, j) (GUARD + ((a)->rm ? (i) * (a)->ld + (j) : (j) * (a)->ld + (i)))
#define B(a, i, j) ((a)->b[MX(a, i, j)])
#define E(a, i, j) ((a)->e[MX(a, i, j)])
#define P(a) ((a)->b + GUARD)
static void bv_new(bv_t *v, int n, int inc, int seed)
{
    int ai = inc < 0 ? -inc : inc;
    v->n = n; v->inc = inc;
    v->len = 2 * GUARD + (n > 0 ? (n - 1) * ai + 1 : 0);
    v->base = GUARD + (inc < 0 && n > 0 ? (n - 1) * ai : 0);
    v->b = mc_mem(sizeof(D) * v->len); v->e = mc_mem(sizeof(D) * v->len);
    for (int i = 0; i < v->len; i++) v->b[i] = canary(i + 1);
    for (int i = 0; i < n; i++) v->b[v->base + i * inc] = (i * i * 3 + 5 * i + 2 * seed) % 9 - 4;
    memcpy(v->e, v->b, sizeof(D) * v->len);
}
#define VB(v, i) ((v)->b[(v)->base + (i) * (v)->inc])
#define VE(v, i) ((v)->e[(v)->base + (i) * (v)->inc])
#define VP(v) ((v)->b + GUARD)

static const char *fn;
static void cmpbuf(const D *b, const D *e, int len, const char *what)
{
    uint64_t h = 0;
    for (int i = 0; i < len; i++) {
        if (!(b[i] == e[i]) && !mc_biteq(b[i], e[i])) {
            char key[64]; snprintf(key, sizeof key, "%s:%s", fn, what);
            mc_fail(key, "%s: buffer of %s, position %d (first element at %d): %.17g, expected %.17g", fn, what, i, GUARD, b[i], e[i]);
            return;
        }
        h = h * 1099511628211ull + (uint64_t)(long)(b[i] * 16);
    }
    mc_cmp(len); mc_outcome(h);
}
static void bm_cmp(bm_t *a, const char *w) { cmpbuf(a->b, a->e, a->len, w); }
static void bv_cmp(bv_t *a, const char *w) { cmpbuf(a->b, a->e, a->len, w); }
static int missing(const void *p)
{
    mc_ops(1);
    if (p) return 0;
    char key[64]; snprintf(key, sizeof key, "%s:missing", fn);
    mc_fail(key, "%s is not provided by the library", fn);
    return 1;
}
// make the triangle not referenced (and the diagonal, if unit) a canary, before the snapshot
static void hide(bm_t *a, int up, int unit)
{
    for (int i = 0; i < a->r; i++)
        for (int j = 0; j < a->c; j++)
            if ((up ? i > j : i < j) || (unit && i == j)) E(a, i, j) = B(a, i, j) = mc_canary();
}
static D tri(bm_t *a, int i, int j, int up, int unit)     // element of the triangular matrix, from the snapshot
{
    if (i == j) return unit ? 1 : E(a, i, i);
    return (up ? i < j : i > j) ? E(a, i, j) : 0;
}
static D sym(bm_t *a, int i, int j, int up) { return (up ? i <= j : i >= j) ? E(a, i, j) : E(a, j, i); }

static const D AL[] = {1, -2, 0}, BE[] = {0, 1, 2, -1};
static char letter(const char *label, const char *set) { return set[mc_choose(label, (int)strlen(set))]; }
#define ISU(c) ((c) == 'U' || (c) == 'u')
#define ISN(c) ((c) == 'N' || (c) == 'n')
#define NMAX (mc_thorough ? 8 : 5)
static int inc_(const char *l) { return mc_thorough ? MC_PICK(l, 1, 2, -1, -2, 3, -3) : MC_PICK(l, 1, 2, -1, -2); }
static int pad_(const char *l) { return MC_PICK(l, 0, 3); }

static void level1(int f)
{
    static const char *nm[] = {"dasum_", "dnrm2_", "idamax_", "dscal_", "daxpy_", "dcopy_", "dswap_", "ddot_", "drot_"};
    fn = nm[f];
    int n = mc_range("n", 0, mc_thorough ? 9 : 6), two = f >= 4;
    int ix = two ? inc_("incx") : mc_thorough ? MC_PICK("incx", 1, 2, 3, 7) : MC_PICK("incx", 1, 2, 3);
    int iy = two ? inc_("incy") : 1;
    int seed = mc_range("data", 0, mc_thorough ? 8 : 4);
    D a = f == 3 || f == 4 ? AL[mc_choose("alpha", 3)] : 1;
    static const D CS[][2] = {{1, 0}, {0, 1}, {2, 3}, {0, -1}};
    int cs = f == 8 ? mc_choose("c,s", 4) : 0;
    if (!mc_begin()) return;
    mc_note("%s n=%d incx=%d incy=%d data=%d alpha=%g", fn, n, ix, iy, seed, a);
    bv_t x, y; bv_new(&x, n, ix, seed); bv_new(&y, two ? n : 0, iy, seed + 1);
    D s = 0; int ni = n; D c = CS[cs][0], sn = CS[cs][1];
    switch (f) {
    case 0: if (missing(dasum_)) return;
        for (int i = 0; i < n; i++) s += fabs(VE(&x, i));
        { D r = dasum_(&ni, VP(&x), &ix); EXPECT(r == s, "dasum_:value", "%.17g, expected %.17g", r, s); } break;
    case 1: if (missing(dnrm2_)) return;
        for (int i = 0; i < n; i++) s += VE(&x, i) * VE(&x, i);
        { D r = dnrm2_(&ni, VP(&x), &ix); EXPECT(fabs(r - sqrt(s)) <= 1e-14 * sqrt(s), "dnrm2_:value", "%.17g, expected %.17g", r, sqrt(s)); } break;
    case 2: if (missing(idamax_)) return;
        { int k = 0; for (int i = 0; i < n; i++) if (k == 0 || fabs(VE(&x, i)) > fabs(VE(&x, k - 1))) k = i + 1;
          int r = idamax_(&ni, VP(&x), &ix);
          EXPECT(r == k, "idamax_:index", "index %d, expected %d (counted from one, zero when empty)", r, k); } break;
    case 3: if (missing(dscal_)) return;
        for (int i = 0; i < n; i++) VE(&x, i) *= a;
        dscal_(&ni, &a, VP(&x), &ix); break;
    case 4: if (missing(daxpy_)) return;
        for (int i = 0; i < n; i++) VE(&y, i) += a * VE(&x, i);
        daxpy_(&ni, &a, VP(&x), &ix, VP(&y), &iy); break;
    case 5: if (missing(dcopy_)) return;
        for (int i = 0; i < n; i++) VE(&y, i) = VE(&x, i);
        dcopy_(&ni, VP(&x), &ix, VP(&y), &iy); break;
    case 6: if (missing(dswap_)) return;
        for (int i = 0; i < n; i++) { D t = VE(&x, i); VE(&x, i) = VE(&y, i); VE(&y, i) = t; }
        dswap_(&ni, VP(&x), &ix, VP(&y), &iy); break;
    case 7: if (missing(ddot_)) return;
        for (int i = 0; i < n; i++) s += VE(&x, i) * VE(&y, i);
        { D r = ddot_(&ni, VP(&x), &ix, VP(&y), &iy); EXPECT(r == s, "ddot_:value", "%.17g, expected %.17g", r, s); } break;
    case 8: if (missing(drot_)) return;
        for (int i = 0; i < n; i++) { D p = VE(&x, i), q = VE(&y, i); VE(&x, i) = c * p + sn * q; VE(&y, i) = c * q - sn * p; }
        drot_(&ni, VP(&x), &ix, VP(&y), &iy, &c, &sn); break;
    }
    bv_cmp(&x, "x"); bv_cmp(&y, "y");
}
static void rotg(void)
{
    static const D V[] = {0, 1, -1, 3, -3, 4, -4, 5, -12, 0.5, 1e-3, -1e3};
    D a = MC_PICKD("a", 0, 1, -1, 3, -3, 4, -4, 5, -12, 0.5, 1e-3, -1e3), b = V[mc_choose("b", ITEM(V))];
    fn = "drotg_";
    if (!mc_begin()) return;
    mc_note("drotg_ a=%g b=%g", a, b);
    if (missing(drotg_)) return;
    D sa = a, sb = b, c = 99, s = 99, h = hypot(a, b), t = 1e-14;
    drotg_(&sa, &sb, &c, &s);
    EXPECT(fabs(c * c + s * s - 1) <= t, "drotg_:unit", "c=%.17g s=%.17g", c, s);
    EXPECT(fabs(c * b - s * a) <= t * h, "drotg_:zero", "c=%.17g s=%.17g does not rotate (%g,%g) to (r,0)", c, s, a, b);
    EXPECT(fabs(c * a + s * b - sa) <= t * h, "drotg_:r", "first argument is %.17g on return, r is %.17g", sa, c * a + s * b);
    // the second argument returns a number from which c and s can be recovered
    D c1, s1;
    if (sb == 1) c1 = 0, s1 = 1; else if (fabs(sb) < 1) s1 = sb, c1 = sqrt(1 - sb * sb); else c1 = 1 / sb, s1 = sqrt(1 - c1 * c1);
    D sg = 1;
    EXPECT(fabs(c1 - sg * c) <= 1e-7 && fabs(s1 - sg * s) <= 1e-7, "drotg_:z", "second argument is %.17g on return, which stands for c=%g s=%g, not %.17g %.17g", sb, c1, s1, c, s);
}
static void level2(int f)
{
    static const char *nm[] = {"dgemv_", "dger_", "dsymv_", "dsyr_", "dsyr2_", "dtrmv_", "dtrsv_"};
    fn = nm[f];
    int n = mc_range("n", 0, NMAX), m = f < 2 ? mc_range("m", 0, NMAX) : n;
    char tr = f == 0 || f >= 5 ? letter("trans", "NTCntc") : 'N';
    char ul = f >= 2 ? letter("uplo", "ULul") : 'U', di = f >= 5 ? letter("diag", "NUnu") : 'N';
    int ix = inc_("incx"), iy = f == 3 || f >= 5 ? 1 : inc_("incy"), pad = pad_("pad");
    D al = f < 5 ? AL[mc_choose("alpha", 3)] : 1, be = f == 0 || f == 2 ? BE[mc_choose("beta", 3)] : 1;
    if (!mc_begin()) return;
    mc_note("%s trans=%c uplo=%c diag=%c m=%d n=%d incx=%d incy=%d lda=%d alpha=%g beta=%g", fn, tr, ul, di, m, n, ix, iy, m + pad, al, be);
    int t = !ISN(tr), up = ISU(ul), un = ISU(di), xl = f == 0 && !t ? n : m, yl = f == 0 ? (t ? n : m) : n;
    bm_t A; bv_t x, y;
    bm_new(&A, m, n, pad, 0, 1, f == 6);
    if (f >= 2) hide(&A, up, un);
    bv_new(&x, xl, ix, 2); bv_new(&y, f == 3 || f >= 5 ? 0 : yl, iy, 3);
    if ((f == 0 || f == 2) && be == 0)      // need not be set on entry
        for (int i = 0; i < yl; i++) if (m && n) VB(&y, i) = NAN;
    D tmp[16];
    switch (f) {
    case 0:
        if (missing(dgemv_)) return;
        if (m && n) for (int i = 0; i < yl; i++) {
            D s = 0; for (int j = 0; j < xl; j++) s += (t ? E(&A, j, i) : E(&A, i, j)) * VE(&x, j);
            VE(&y, i) = (be == 0 ? 0 : be * VE(&y, i)) + al * s;
        }
        dgemv_(&tr, &m, &n, &al, P(&A), &A.ld, VP(&x), &ix, &be, VP(&y), &iy); break;
    case 1:
        if (missing(dger_)) return;
        for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) E(&A, i, j) += al * VE(&x, i) * VE(&y, j);
        dger_(&m, &n, &al, VP(&x), &ix, VP(&y), &iy, P(&A), &A.ld); break;
    case 2:
        if (missing(dsymv_)) return;
        for (int i = 0; i < n; i++) {
            D s = 0; for (int j = 0; j < n; j++) s += sym(&A, i, j, up) * VE(&x, j);
            VE(&y, i) = (be == 0 ? 0 : be * VE(&y, i)) + al * s;
        }
        dsymv_(&ul, &n, &al, P(&A), &A.ld, VP(&x), &ix, &be, VP(&y), &iy); break;
    case 3: case 4:
        if (missing(f == 3 ? (void *)dsyr_ : (void *)dsyr2_)) return;
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (up ? i <= j : i >= j)
            E(&A, i, j) += f == 3 ? al * VE(&x, i) * VE(&x, j) : al * (VE(&x, i) * VE(&y, j) + VE(&y, i) * VE(&x, j));
        if (f == 3) dsyr_(&ul, &n, &al, VP(&x), &ix, P(&A), &A.ld);
        else dsyr2_(&ul, &n, &al, VP(&x), &ix, VP(&y), &iy, P(&A), &A.ld);
        break;
    case 5:
        if (missing(dtrmv_)) return;
        for (int i = 0; i < n; i++) { tmp[i] = 0; for (int j = 0; j < n; j++) tmp[i] += (t ? tri(&A, j, i, up, un) : tri(&A, i, j, up, un)) * VE(&x, j); }
        for (int i = 0; i < n; i++) VE(&x, i) = tmp[i];
        dtrmv_(&ul, &tr, &di, &n, P(&A), &A.ld, VP(&x), &ix); break;
    case 6:
        if (missing(dtrsv_)) return;
        for (int q = 0; q < n; q++) {
            int i = up != t ? n - 1 - q : q;
            D s = VE(&x, i);
            for (int j = 0; j < n; j++) if (j != i) s -= (t ? tri(&A, j, i, up, un) : tri(&A, i, j, up, un)) * VE(&x, j);
            // elements not solved yet have a zero coefficient
            VE(&x, i) = s / tri(&A, i, i, up, un);
        }
        dtrsv_(&ul, &tr, &di, &n, P(&A), &A.ld, VP(&x), &ix); break;
    }
    bm_cmp(&A, "A"); bv_cmp(&x, "x"); bv_cmp(&y, "y");
}
static int ct(char c) { return ISN(c) ? 111 : (c == 'T' || c == 't') ? 112 : 113; }
static void level3(int f, int cb)      // cb: 0 Fortran, 1 column major, 2 row major
{
    static const char *nm[2][6] = {{"dgemm_", "dsymm_", "dsyrk_", "dsyr2k_", "dtrmm_", "dtrsm_"},
                                   {"cblas_dgemm", "cblas_dsymm", 0, 0, "cblas_dtrmm", "cblas_dtrsm"}};
    fn = nm[cb > 0][f];
    int mx = mc_thorough ? 6 : 4, rm = cb == 2, ord = rm ? 101 : 102;
    int m = f == 2 || f == 3 ? 0 : mc_range("m", 0, mx), n = mc_range("n", 0, mx), k = f == 0 || f == 2 || f == 3 ? mc_range("k", 0, mx) : 0;
    const char *tset = cb ? "NTC" : f == 0 ? "NTct" : f == 2 || f == 3 ? "NTnt" : "NTCtnc";
    char ta = f == 1 ? 'N' : letter("transa", tset), tb = f == 0 ? letter("transb", tset) : 'N';
    char si = f == 1 || f >= 4 ? letter("side", cb ? "LR" : "LRlr") : 'L';
    char ul = f >= 1 ? letter("uplo", cb ? "UL" : "ULul") : 'U';
    char di = f >= 4 ? letter("diag", cb ? "NU" : "NUnu") : 'N';
    int pa = pad_("pad A"), pb = f == 2 ? 0 : MC_PICK("pad B", 0, 2), pc = f < 4 ? MC_PICK("pad C", 0, 1) : 0;
    D al = AL[mc_choose("alpha", f >= 4 ? 2 : 3)], be = f < 4 ? BE[mc_choose("beta", 3)] : 1;
    if (!mc_begin()) return;
    mc_note("%s %s side=%c uplo=%c transa=%c transb=%c diag=%c m=%d n=%d k=%d pads %d,%d,%d alpha=%g beta=%g", fn, cb ? (rm ? "row major" : "column major") : "",
            si, ul, ta, tb, di, m, n, k, pa, pb, pc, al, be);
    int t = !ISN(ta), u = !ISN(tb), up = ISU(ul), un = ISU(di), rt = si == 'R' || si == 'r';
    bm_t A, Bm, C;
    switch (f) {
    case 0:
        bm_new(&A, t ? k : m, t ? m : k, pa, rm, 1, 0); bm_new(&Bm, u ? n : k, u ? k : n, pb, rm, 2, 0); bm_new(&C, m, n, pc, rm, 3, 0); break;
    case 1:
        bm_new(&A, rt ? n : m, rt ? n : m, pa, rm, 1, 0); hide(&A, up, 0); bm_new(&Bm, m, n, pb, rm, 2, 0); bm_new(&C, m, n, pc, rm, 3, 0); break;
    case 2: case 3:
        bm_new(&A, t ? k : n, t ? n : k, pa, rm, 1, 0); bm_new(&Bm, t ? k : n, t ? n : k, pb, rm, 2, 0); bm_new(&C, n, n, pc, rm, 3, 0); hide(&C, up, 0); break;
    default:
        bm_new(&A, rt ? n : m, rt ? n : m, pa, rm, 1, f == 5); hide(&A, up, un); bm_new(&Bm, m, n, pb, rm, 2, 0); bm_new(&C, 0, 0, 0, 0, 0, 0); break;
    }
    if (f < 4 && be == 0)
        for (int i = 0; i < C.r; i++) for (int j = 0; j < C.c; j++) if (f < 2 || (up ? i <= j : i >= j)) B(&C, i, j) = NAN;
#define C0(i, j) (be == 0 ? 0 : be * E(&C, i, j))
    switch (f) {
    case 0:
        if (missing(cb ? (void *)cblas_dgemm : (void *)dgemm_)) return;
        for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
            D s = 0; for (int l = 0; l < k; l++) s += (t ? E(&A, l, i) : E(&A, i, l)) * (u ? E(&Bm, j, l) : E(&Bm, l, j));
            E(&C, i, j) = C0(i, j) + al * s;
        }
        if (cb) cblas_dgemm(ord, ct(ta), ct(tb), m, n, k, al, P(&A), A.ld, P(&Bm), Bm.ld, be, P(&C), C.ld);
        else dgemm_(&ta, &tb, &m, &n, &k, &al, P(&A), &A.ld, P(&Bm), &Bm.ld, &be, P(&C), &C.ld);
        break;
    case 1:
        if (missing(cb ? (void *)cblas_dsymm : (void *)dsymm_)) return;
        for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
            D s = 0;
            if (rt) for (int l = 0; l < n; l++) s += E(&Bm, i, l) * sym(&A, l, j, up);
            else for (int l = 0; l < m; l++) s += sym(&A, i, l, up) * E(&Bm, l, j);
            E(&C, i, j) = C0(i, j) + al * s;
        }
        if (cb) cblas_dsymm(ord, rt ? 142 : 141, up ? 121 : 122, m, n, al, P(&A), A.ld, P(&Bm), Bm.ld, be, P(&C), C.ld);
        else dsymm_(&si, &ul, &m, &n, &al, P(&A), &A.ld, P(&Bm), &Bm.ld, &be, P(&C), &C.ld);
        break;
    case 2: case 3:
        if (missing(f == 2 ? (void *)dsyrk_ : (void *)dsyr2k_)) return;
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (up ? i <= j : i >= j) {
            D s = 0;
            for (int l = 0; l < k; l++) {
                D a1 = t ? E(&A, l, i) : E(&A, i, l), a2 = t ? E(&A, l, j) : E(&A, j, l);
                D b1 = t ? E(&Bm, l, i) : E(&Bm, i, l), b2 = t ? E(&Bm, l, j) : E(&Bm, j, l);
                s += f == 2 ? a1 * a2 : a1 * b2 + b1 * a2;
            }
            E(&C, i, j) = C0(i, j) + al * s;
        }
        if (f == 2) dsyrk_(&ul, &ta, &n, &k, &al, P(&A), &A.ld, &be, P(&C), &C.ld);
        else dsyr2k_(&ul, &ta, &n, &k, &al, P(&A), &A.ld, P(&Bm), &Bm.ld, &be, P(&C), &C.ld);
        break;
    default: {
        if (missing(f == 4 ? (cb ? (void *)cblas_dtrmm : (void *)dtrmm_) : (cb ? (void *)cblas_dtrsm : (void *)dtrsm_))) return;
        int q = rt ? n : m, w = rt ? m : n;
        // op(A) X = alpha B, or X op(A) = alpha B, vector by vector; V(l): element l of vector v of B
#define V(l, v) (*(rt ? &E(&Bm, v, l) : &E(&Bm, l, v)))
        int tt = t != rt;      // X op(A): the transposed operator acts on the rows
        for (int v = 0; v < w; v++) {
            D x[8];
            if (f == 4) {
                for (int i = 0; i < q; i++) { x[i] = 0; for (int j = 0; j < q; j++) x[i] += (tt ? tri(&A, j, i, up, un) : tri(&A, i, j, up, un)) * V(j, v); }
                for (int i = 0; i < q; i++) V(i, v) = al * x[i];
            } else {
                for (int i = 0; i < q; i++) x[i] = 0;
                for (int r = 0; r < q; r++) {
                    int i = up != tt ? q - 1 - r : r;
                    D s = al * V(i, v);
                    for (int j = 0; j < q; j++) if (j != i) s -= (tt ? tri(&A, j, i, up, un) : tri(&A, i, j, up, un)) * x[j];
                    x[i] = s / tri(&A, i, i, up, un);
                }
                for (int i = 0; i < q; i++) V(i, v) = x[i];
            }
        }
        int S1 = rt ? 142 : 141, U1 = up ? 121 : 122, D1 = un ? 132 : 131;
        if (cb) (f == 4 ? cblas_dtrmm : cblas_dtrsm)(ord, S1, U1, ct(ta), D1, m, n, al, P(&A), A.ld, P(&Bm), Bm.ld);
        else (f == 4 ? dtrmm_ : dtrsm_)(&si, &ul, &ta, &di, &m, &n, &al, P(&A), &A.ld, P(&Bm), &Bm.ld);
        break; }
    }
    bm_cmp(&A, "A"); bm_cmp(&Bm, "B"); bm_cmp(&C, "C");
}
const char *mc_name = "compat";
void mc_setup(void) { }
void mc_body(void)
{
    int f = mc_choose("routine", 27);
    if (f < 9) level1(f);
    else if (f == 9) rotg();
    else if (f < 17) level2(f - 10);
    else if (f < 23) level3(f - 17, 0);
    else { static const int F[] = {0, 1, 4, 5}; int rm = mc_choose("order", 2); level3(F[f - 23], 1 + rm); }
}
