/* C19: MatrixMarket I/O, dense and sparse: round trip, malformed and truncated files, failing streams */
#define _GNU_SOURCE 1
#include "sp.h"
#include <ctype.h>
#include <errno.h>
const char *mc_name = "mmio";
void mc_setup(void) {}
/* ---- reference reader: 1 accepted, 0 rejected, 2 either */
typedef struct { int r, c, symm, coord, nnz, end; double v[16][16]; } doc_t;
static int isnum(const char *t, int n, double *v, int *grey)
{
    char b[64]; if (n < 1 || n > 60) { *grey = 1; return n >= 1; } memcpy(b, t, n); b[n] = 0; int i = 0, dig = 0;
    if (b[i] == '+' || b[i] == '-') i++; int s = i; while (isdigit((unsigned char)b[i])) i++, dig++; if (b[i] == '.') { if (i == s) *grey = 1; i++; if (!isdigit((unsigned char)b[i])) *grey = 1; while (isdigit((unsigned char)b[i])) i++, dig++; }
    if (dig == 0) return 0; if ((b[i] | 32) == 'e') { i++; if (b[i] == '+' || b[i] == '-') i++; if (!isdigit((unsigned char)b[i])) return 0; while (isdigit((unsigned char)b[i])) i++; }
    if (b[i]) { if (b[s] == '0' && (b[s + 1] | 32) == 'x') *grey = 1; return 0; } *v = strtod(b, 0); if (!(fabs(*v) <= 1.7976931348623157e308)) *grey = 1; return 1;
}
static int isint(const char *t, int n, long *v, int *grey)
{
    int i = 0; if (n > 18 || n < 1) return 0; if (t[i] == '+' || t[i] == '-') { if (t[i] == '+') *grey = 1; i++; } if (i == n) return 0; for (int q = i; q < n; q++) if (!isdigit((unsigned char)t[q])) return 0;
    char b[24]; memcpy(b, t, n); b[n] = 0; *v = strtol(b, 0, 10); if (*v == 0 && t[0] == '-') *grey = 1; return 1;
}
typedef struct { const char *t[12]; int n[12], k; } toks_t;
static int toks(const char *s, int n, toks_t *T)
{
    T->k = 0; int i = 0; while (i < n) { while (i < n && isspace((unsigned char)s[i])) i++; if (i >= n) break; int st = i; while (i < n && !isspace((unsigned char)s[i])) i++; if (T->k < 12) { T->t[T->k] = s + st; T->n[T->k] = i - st; T->k++; } } return T->k;
}
static int eqt(toks_t *T, int k, const char *w) { return k < T->k && T->n[k] == (int)strlen(w) && !strncasecmp(T->t[k], w, T->n[k]); }
static int refread(const char *s, int n, int sparse, doc_t *d)
{
    int grey = 0, i = 0, st, ln; toks_t T; memset(d, 0, sizeof *d); if (memchr(s, 0, n)) return 2;
    #define REJ return grey ? 2 : 0
    #define LINE() (i < n ? (st = i, ({ while (i < n && s[i] != '\n') i++; }), ln = i - st, i < n ? i++ : 0, 1) : 0)
    if (!LINE()) REJ; if (ln >= 510) grey = 1; if (ln < 2 || s[st] != '%' || s[st + 1] != '%') REJ;
    for (int q = 0; q < ln; q++) if ((isspace((unsigned char)s[st + q]) && s[st + q] != ' ') || (s[st + q] == ' ' && (q + 1 == ln || s[st + q + 1] == ' '))) grey = 1;
    toks(s + st, ln, &T); if (T.k != 5) { if (T.k < 4) REJ; grey = 1; }
    if (!eqt(&T, 0, "%%MatrixMarket") || !eqt(&T, 1, "matrix")) REJ; if (!(d->coord = eqt(&T, 2, "coordinate")) && !eqt(&T, 2, "array")) REJ;
    if (eqt(&T, 3, "integer")) grey = 1; else if (!eqt(&T, 3, "real")) REJ; d->symm = eqt(&T, 4, "symmetric") || eqt(&T, 4, "hermitian"); if (!d->symm && !eqt(&T, 4, "general")) REJ;
    if (sparse && !d->coord) REJ;
    long v[3] = {0, 0, 0};
    for (;;) { if (!LINE()) REJ; if (s[st] == '%' && ln) continue; toks(s + st, ln, &T); if (T.k == 0) { grey = 1; continue; } if (T.k != (d->coord ? 3 : 2)) REJ; for (int q = 0; q < T.k; q++) if (!isint(T.t[q], T.n[q], &v[q], &grey) || v[q] < 0 || v[q] > 2000000000L) REJ; break; }
    if (d->symm && v[0] != v[1]) REJ; if (v[0] > 16 || v[1] > 16) { /* content is not kept */ if (v[0] > 100000 || v[1] > 100000 || v[2] > 1000000) grey = 1; }
    d->r = v[0]; d->c = v[1]; long ne = d->nnz = v[2]; if (!d->coord) ne = d->symm ? v[0] * (v[0] + 1) / 2 : v[0] * v[1];
    int r = 0, c = 0; char (*seen)[16] = mc_mem(256); memset(seen, 0, 256);
    for (long k = 0; k < ne; k++) {
        do { if (!LINE()) REJ; toks(s + st, ln, &T); if (T.k == 0 || s[st] == '%') grey = 1; } while (T.k == 0 || s[st] == '%');
        double x; long a, b;
        if (!d->coord) { if (T.k != 1) { for (int q = 0; q < T.k; q++) if (!isnum(T.t[q], T.n[q], &x, &grey)) REJ; grey = 1; REJ; } if (!isnum(T.t[0], T.n[0], &x, &grey)) REJ; if (r < 16 && c < 16) d->v[r][c] = x; if (++r == d->r) { c++; r = d->symm ? c : 0; } }
        else { if (T.k != 3 || !isint(T.t[0], T.n[0], &a, &grey) || !isint(T.t[1], T.n[1], &b, &grey) || !isnum(T.t[2], T.n[2], &x, &grey)) REJ; if (a < 1 || a > d->r || b < 1 || b > d->c) REJ; a--; b--; if (d->symm && b > a) grey = 1; if (a < 16 && b < 16) { if (seen[a][b]) grey = 1; seen[a][b] = 1; d->v[a][b] = x; } }
    }
    d->end = i; if (d->r > 16 || d->c > 16 || (sparse && (d->r == 0 || d->c == 0))) grey = 1; return grey ? 2 : 1;
}
/* ---- streams */
typedef struct { const char *s; int n, off, fail; char *out; int no; } ck_t;
static ssize_t ck_read(void *p, char *b, size_t z) { ck_t *k = p; if (k->off >= k->fail) { errno = EIO; return -1; } if (k->off >= k->n || z == 0) return 0; *b = k->s[k->off++]; return 1; }
static ssize_t ck_write(void *p, const char *b, size_t z) { ck_t *k = p; size_t w = 0; for (; w < z; w++) { if (k->no >= k->fail) { errno = ENOSPC; return w; } if (k->no < 8191) k->out[k->no++] = b[w]; } return w; }
static FILE *ck_open(ck_t *k, const char *mode) { cookie_io_functions_t io = {.read = ck_read, .write = ck_write}; FILE *f = fopencookie(k, mode, io); if (f) setvbuf(f, 0, _IONBF, 0); return f; }
static FILE *rd(const char *s, int n, int how, ck_t *k) { if (how == 0) { FILE *f = fmemopen((void *)s, n ? n : 1, "r"); if (n == 0) fgetc(f); return f; } *k = (ck_t){.s = s, .n = n, .fail = 1 << 30}; return ck_open(k, "r"); }
static void content(doc_t *d, const armas_dense_t *A, const armas_sparse_t *S)
{
    if (S) { ref_t R; R.r = d->r; R.c = d->c; memset(R.v, 0, sizeof R.v); for (int i = 0; i < d->r; i++) for (int j = 0; j < d->c; j++) R.v[i][j] = d->v[i][j]; sp_check("loaded", S, &R, d->nnz, ARMASSP_COO, 0); return; }
    EXPECT("dims", A->rows == d->r && A->cols == d->c, "matrix is %dx%d, expected %dx%d", A->rows, A->cols, d->r, d->c);
    for (int j = 0; j < d->c; j++) for (int i = 0; i < d->r; i++) { double v = armas_get_unsafe(A, i, j), w = d->v[i][j]; if (d->symm && j > i) { if (v == d->v[j][i]) w = v; } EXPECT("value", v == w, "element (%d,%d) is %.17g, expected %.17g", i, j, v, w); }
}
static void judge(const char *s, int n, int how, int sparse)
{
    doc_t *d = mc_mem(sizeof *d); int want = refread(s, n, sparse, d); long live0 = mc_live(); ck_t k; armas_dense_t A; memset(&A, 0, sizeof A); armas_sparse_t *S = 0; int fl = -7, ok;
    char *copy = malloc(n ? n : 1); memcpy(copy, s, n); FILE *f = rd(copy, n, how, &k); mc_ops(1);
    if (sparse) { S = armassp_mmload(&fl, f); ok = S != 0; } else { int rc = armas_mmload(&A, &fl, f); if (rc > 0) mc_fail("status", "status %d", rc); ok = rc >= 0; }
    int next = fgetc(f); fclose(f); free(copy); mc_cmp(1);
    if (ok && want == 0) { mc_fail("accept", "malformed file accepted as %dx%d", sparse ? S->rows : A.rows, sparse ? S->cols : A.cols); return; }
    if (!ok && want == 1) { mc_fail("reject", "valid file rejected"); return; }
    if (!ok) { EXPECT("error-result", A.__data == 0 || sparse, "matrix left behind after an error"); EXPECT("leak", mc_live() == live0, "%ld blocks leaked on error", mc_live() - live0); mc_outcome(3); return; }
    if (want == 1) { content(d, sparse ? 0 : &A, S); if (mc_failed()) return; EXPECT("symmetry", (sparse ? (fl & ARMAS_MM_SYMMETRIC) || (fl & ARMAS_MM_HERMITIAN) : (fl & ARMAS_SYMM) != 0) == d->symm, "flags 0x%x for a %s file", fl, d->symm ? "symmetric" : "general"); int e = d->end < n ? (unsigned char)s[d->end] : -1; EXPECT("position", next == e, "stream is at character %d, expected %d", next, e); }
    if (sparse) armassp_free(S); else armas_release(&A);
    EXPECT("leak", mc_live() == live0, "%ld blocks leaked", mc_live() - live0); mc_outcome(mc_hash(d->v, sizeof d->v, want));
}
static const char *DOCS[] = {
    "%%MatrixMarket matrix array real general\n2 2\n1.5\n-2\n3e2\n0\n", "%%MatrixMarket matrix coordinate real general\n2 3 2\n1 2 -1.25\n2 3 4\n", "%%MatrixMarket matrix array real symmetric\n% note\n2 2\n1\n-2.5\n7\n",
    "%%MatrixMarket matrix coordinate real symmetric\n%\n2 2 2\n1 1 2\n2 1 -1e-3\n", "%%MatrixMarket matrix coordinate real general\n3 2 0\n", "%%matrixmarket MATRIX Array REAL General\n1 1\n9", "%%MatrixMarket matrix coordinate real hermitian\n1 1 1\n1 1 12.5\nrest",
    "%%MatrixMarket matrix array real general\n0 3\nrest", "%%MatrixMarket matrix coordinate real general\n2 2 3\n2 2 1\n1 1 2\n1 2 3\n1 1 9\n" };
enum { NDOC = 9 };
static const char *ODD[] = { "%%MatrixMarket matrix coordinate real general\n2 2 1\n4294967297 1 2.0\n", "%%MatrixMarket matrix coordinate real general\n2 2 1\n1 4294967298 2.0\n", "%%MatrixMarket matrix coordinate real general\n4294967298 2 1\n1 1 2.0\n", "%%MatrixMarket matrix array real general\n4294967297 1\n5\n", "%%MatrixMarket matrix array real general\n65536 65536\n5\n", "%%MatrixMarket matrix coordinate real general\n65536 65536 1\n40000 30000 5\n", "%%MatrixMarket matrix coordinate real general\n65536 65537 1\n1 1 5\n", "%%MatrixMarket matrix array real general\n-1 -1\n5\n", "%%MatrixMarket matrix coordinate real general\n-2 -2 1\n-1 -1 3\n", "%%MatrixMarket matrix coordinate real general\n2 2 -1\n1 1 3\n", "%%MatrixMarket matrix coordinate real general\n2 2 18446744073709551617\n1 1 3\n",
    "%%MatrixMarket matrix array real symmetric\n2 3\n1\n2\n3\n4\n5\n6\n", "%%MatrixMarket matrix coordinate real symmetric\n3 2 1\n1 1 1\n", "", "\n", "%%", "%%MatrixMarket", "%%MatrixMarket matrix array real general", "%%MatrixMarket matrix array real general\n%c\n%d\n", "%%MatrixMarket matrix coordinate real general\n2 2 1\n1 1\n2.0\n", "%%MatrixMarket matrix coordinate real general\n2 2 2\n1 1 2.0\n1 2 foo\n", "%%MatrixMarket matrix coordinate real general\n2 2 2\n1 1 2.0 1 2 3.0\n",
    "%%MatrixMarket matrix coordinate real general\n2 2 2147483647\n1 1 2.0\n", "%%MatrixMarket matrix coordinate real general\n2 2 1\n0 0 5\n", "%%MatrixMarket matrix coordinate real general\n2 2 1\n3 1 5\n", "%%MatrixMarket matrix coordinate real general\n2 2 1\n1 3 5\n", "%%MatrixMarket matrix coordinate complex general\n1 1 1\n1 1 2 3\n", "%%MatrixMarket matrix coordinate pattern general\n1 1 1\n1 1\n" };
enum { NODD = sizeof ODD / sizeof *ODD };
static const char ALPH[] = "0129-+.e \n%ax";   /* and the zero byte */
static void t_mutate(void)
{
    int sparse = mc_choose("sparse", 2), k = mc_choose("file", NDOC), n = strlen(DOCS[k]), op = mc_choose("mutation", 5), na = sizeof ALPH, pos = mc_choose("position", n + 1), ch = 0, p2 = 0, c2 = 0, p3 = 0, c3 = -1;
    int body = strchr(DOCS[k], '\n') - DOCS[k];
    if (op == 2 || op == 3) ch = mc_choose("char", na);
    if (op == 4) { if (pos < body) { if (mc_begin()) mc_ops(1); return; } p2 = mc_choose("second", n + 1 - pos); ch = mc_choose("char", na); c2 = mc_choose("second char", na + 1); if (thorough()) { p3 = mc_choose("third", 8); c3 = mc_choose("third char", na + 1); } }
    if (!mc_begin()) return;
    char b[256]; memcpy(b, DOCS[k], n + 1); int len = n;
    #define SUB(p, c) do { if ((p) < len) b[p] = (c); } while (0)
    #define INS(p, c) do { memmove(b + (p) + 1, b + (p), len - (p)); b[p] = (c); len++; } while (0)
    #define DEL(p) do { if ((p) < len) { memmove(b + (p), b + (p) + 1, len - (p) - 1); len--; } } while (0)
    switch (op) { case 0: len = pos; break; case 1: DEL(pos); break; case 2: SUB(pos, ALPH[ch]); break; case 3: INS(pos, ALPH[ch]); break;
    default: SUB(pos, ALPH[ch]); { int q = pos + 1 + p2; if (c2 == na) DEL(q); else if (q <= len) INS(q, ALPH[c2]); q = pos + 1 + p3; if (c3 == na) DEL(q); else if (c3 >= 0) SUB(q, ALPH[c3]); } }
    b[len] = 0; mc_note("%s %.*s", sparse ? "sparse" : "dense", len, b); judge(b, len, (pos + ch) & 1, sparse);
}
static void t_banner(void)
{
    static const char *t0[] = {"%%MatrixMarket", "%%matrixmarket", "%MatrixMarket", "%%Matrix", "MatrixMarket", "%%MatrixMarkets"}, *t1[] = {"matrix", "MATRIX", "vector", "matri", "matrixx", "real"}, *t2[] = {"array", "coordinate", "Array", "arra", "coordinates", "real"}, *t3[] = {"real", "Real", "complex", "integer", "pattern", "rea", "general"}, *t4[] = {"general", "symmetric", "hermitian", "skew-symmetric", "GENERAL", "symmetri", "real", 0};
    int sparse = mc_choose("sparse", 2), a = mc_choose("header", 6), o = mc_choose("object", 6), f = mc_choose("format", 6), t = mc_choose("type", 7), y = mc_choose("symmetry", 8), eol = mc_choose("eol", 4);
    if (!mc_begin()) return;
    char b[256]; int n = snprintf(b, sizeof b, "%s %s %s %s%s%s%s%s", t0[a], t1[o], t2[f], t3[t], t4[y] ? " " : "", t4[y] ? t4[y] : "", eol == 1 ? " " : eol == 2 ? "\n%comment\n% 1 1\n" : eol == 3 ? "\n\n" : "", eol < 2 ? "\n" : ""); n += snprintf(b + n, sizeof b - n, f == 1 ? "2 2 2\n1 1 3\n2 1 -4.5\n" : y == 1 || y == 2 ? "2 2\n1\n2\n3\n" : "2 2\n1\n2\n3\n4\n");
    mc_note("%s %s", sparse ? "sparse" : "dense", b); judge(b, n, y & 1, sparse);
}
static void t_odd(void) { int sparse = mc_choose("sparse", 2), k = mc_choose("file", NODD), how = mc_choose("stream", 2); if (!mc_begin()) return; mc_note("%s %s", sparse ? "sparse" : "dense", ODD[k]); judge(ODD[k], strlen(ODD[k]), how, sparse); }
static const double VT[5][9] = {{0, 1, -1, 2, -3, 10, 100, -7, 64}, {0.5, -0.25, 1.0 / 3, 2.0 / 3, 1e10 / 7, -1e-10 / 7, 0.1, 0.2, 0.3}, {1e300, -1e300, 1e-300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1e-310, 1e100, 1e-100}, {123456789, 987654321.125, 1e15, 1e16, -1e14 - 1, 2147483648.0, 4294967296.0, -2147483649.0, 1e9}, {-0.0, 1.0000000000000002, 0.99999999999999989, 99999.5, 1e-4, 0.00012, 1e20, 1e21, 1e22}};
static void t_round(void)
{
    int n = thorough() ? 6 : 4, sym = mc_choose("symmetric", 2), r = mc_range("rows", 0, n), c = sym ? r : mc_range("cols", 0, n), lay = mc_choose("layout", 2), vals = mc_choose("values", 5), how = mc_choose("stream", 2), nf = mc_choose("flags-null", 2);
    if (!mc_begin()) return;
    mc_note("dense round trip %dx%d layout %d values %d%s", r, c, lay, vals, sym ? " symmetric" : ""); long live0 = mc_live(); gm_t g; gm_new(&g, r, c, lay ? LP : LT); for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) G(&g, i, j) = VT[vals][(i * 4 + j) % 9]; gm_snap(&g);
    char *buf = mc_mem(8192); ck_t k = {.out = buf, .fail = 1 << 30}; FILE *f = ck_open(&k, "w"); mc_ops(2); int rc = armas_mmdump(f, &g.m, sym ? ARMAS_SYMM : 0); fclose(f); int len = k.no;
    EXPECT("write", rc == len, "status %d, %d characters written", rc, len); gm_same(&g, "matrix written");
    doc_t *d = mc_mem(sizeof *d); EXPECT("well-formed", refread(buf, len, 0, d) == 1 && d->end == len, "written file is not valid: %.*s", len > 200 ? 200 : len, buf); EXPECT("symmetry", d->symm == sym, "banner %.60s", buf);
    for (int j = 0; j < c; j++) for (int i = sym ? j : 0; i < r; i++) EXPECT("written", d->v[i][j] == G(&g, i, j), "element (%d,%d) written as %.17g, is %.17g", i, j, d->v[i][j], G(&g, i, j));
    armas_dense_t A; memset(&A, 0, sizeof A); int fl = -7; f = rd(buf, len, how, &k); rc = armas_mmload(&A, nf ? 0 : &fl, f); fclose(f); EXPECT("read", rc == 0, "read failed (%d)", rc); if (!nf) EXPECT("symmetry", ((fl & ARMAS_SYMM) != 0) == sym, "flags 0x%x", fl);
    content(d, &A, 0); armas_release(&A); if (mc_failed()) return; EXPECT("leak", mc_live() == live0, "%ld blocks leaked", mc_live() - live0); mc_outcome(mc_hash(buf, len, 1));
    if (r != c) { k = (ck_t){.out = buf, .fail = 1 << 30}; f = ck_open(&k, "w"); rc = armas_mmdump(f, &g.m, ARMAS_SYMM); fclose(f); EXPECT("symmetric-nonsquare", rc < 0 || refread(buf, k.no, 0, d) == 1, "unreadable file written with success"); }
}
static void t_sround(void)
{
    int sym = mc_choose("symmetric", 2), r = mc_range("rows", 1, 3), c = sym ? r : mc_range("cols", 1, 3), kind = mc_choose("kind", 3), bits = mc_choose("pattern", 1 << (r * c)), vals = mc_choose("values", 5), how = mc_choose("stream", 2), nf = mc_choose("type-null", 2);
    if (!mc_begin()) return;
    mc_ops(1); if (sym) for (int j = 0; j < c; j++) for (int i = 0; i < j; i++) if (bits >> (j * r + i) & 1) return;
    if (!thorough() && vals && (bits * 7 + vals) % 5) return;
    mc_note("sparse round trip %dx%d %s pattern 0x%x values %d%s", r, c, spk[kind], bits, vals, sym ? " symmetric" : ""); long live0 = mc_live(); static const int KD[] = {ARMASSP_COO, ARMASSP_CSR, ARMASSP_CSC}; ref_t *R = mc_mem(sizeof *R); armas_sparse_t *A = sp_make(R, r, c, bits, KD[kind], 1, 0, 1); if (!A) { EXPECT("new", r == 0 || c == 0, "no matrix"); return; }
    for (int q = 0; q < A->nnz; q++) { double v = VT[vals][(q * 2 + 1) % 9]; int i, j; if (KD[kind] == ARMASSP_COO) { A->elems.ep[q].val = v; R->v[A->elems.ep[q].i][A->elems.ep[q].j] = v; } else { int p = 0; while (A->ptr[p + 1] <= q) p++; i = KD[kind] == ARMASSP_CSR ? p : A->ix[q]; j = KD[kind] == ARMASSP_CSR ? A->ix[q] : p; A->elems.v[q] = v; R->v[i][j] = v; } }
    char *buf = mc_mem(8192); ck_t k = {.out = buf, .fail = 1 << 30}; FILE *f = ck_open(&k, "w"); mc_ops(1); int nnz = A->nnz, rc = armassp_mmdump(f, A, sym ? ARMAS_MM_SYMMETRIC : 0); fclose(f); int len = k.no; EXPECT("write", rc == len, "status %d, %d characters written", rc, len);
    if (!sp_check("dumped", A, R, nnz, KD[kind], 0)) return; armassp_free(A);
    doc_t *d = mc_mem(sizeof *d); EXPECT("well-formed", refread(buf, len, 1, d) == 1 && d->end == len && d->symm == sym && d->nnz == nnz, "written file is not valid: %.*s", len > 200 ? 200 : len, buf);
    for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) EXPECT("written", d->v[i][j] == R->v[i][j], "element (%d,%d) written as %.17g, is %.17g", i, j, d->v[i][j], R->v[i][j]);
    int tc = 0; f = rd(buf, len, how, &k); armas_sparse_t *B = armassp_mmload(nf ? 0 : &tc, f); fclose(f); EXPECT("read", B != 0, "read failed"); if (!sp_check("loaded", B, R, nnz, ARMASSP_COO, 0)) return; if (!nf) EXPECT("symmetry", ((tc & ARMAS_MM_SYMMETRIC) != 0) == sym, "typecode 0x%x", tc);
    armassp_free(B); EXPECT("leak", mc_live() == live0, "%ld blocks leaked", mc_live() - live0);
    /* and into a dense matrix */
    armas_dense_t D; memset(&D, 0, sizeof D); f = rd(buf, len, how, &k); rc = armas_mmload(&D, &tc, f); fclose(f); EXPECT("read-dense", rc == 0, "read failed (%d)", rc); content(d, &D, 0); armas_release(&D); mc_outcome(mc_hash(buf, len, 2));
}
static void t_fault(void)
{
    int sparse = mc_choose("sparse", 2), k = mc_choose("file", NDOC), kind = mc_choose("fault", 3), n = strlen(DOCS[k]), pos = mc_choose("position", kind == 2 ? 6 : kind == 1 ? 1 : n + 1);
    if (!mc_begin()) return;
    static const char *fn[] = {"read fails", "write fails", "allocation fails"}; mc_note("%s %s at %d, file %d", sparse ? "sparse" : "dense", fn[kind], pos, k); doc_t *d = mc_mem(sizeof *d); int want = refread(DOCS[k], n, sparse, d); long live0 = mc_live(); mc_ops(1); ck_t c; FILE *f; armas_dense_t A; memset(&A, 0, sizeof A); armas_sparse_t *S = 0; int fl, ok;
    if (kind == 1) {
        if (want != 1) return; char *buf = mc_mem(8192); f = rd(DOCS[k], n, 0, &c); ok = sparse ? (S = armassp_mmload(&fl, f)) != 0 : armas_mmload(&A, &fl, f) == 0; fclose(f); if (!ok) return; int len = 0;
        for (int q = 1 << 30; q >= 0; q = q > 100000 ? len : q - 1) { c = (ck_t){.out = buf, .fail = q}; f = ck_open(&c, "w"); int rc = sparse ? armassp_mmdump(f, S, 0) : armas_mmdump(f, &A, 0); fclose(f); if (q > 100000) len = c.no; EXPECT("fault", (rc >= 0) == (q >= len), "status %d with the stream failing at character %d of %d", rc, q, len); }
    } else {
        c = (ck_t){.s = DOCS[k], .n = n, .fail = kind == 0 ? pos : 1 << 30}; f = ck_open(&c, "r"); if (kind == 2) mc_fail_alloc(pos + 1);
        if (sparse) { S = armassp_mmload(&fl, f); ok = S != 0; } else ok = armas_mmload(&A, &fl, f) >= 0; int hit = mc_alloc_failed() > 0; mc_fail_alloc(0); fclose(f);
        if (kind == 0) { int end = want == 1 ? d->end : 0; /* file without final newline: read up to end of file */ EXPECT("fault", want != 1 ? !ok : ok ? pos >= end : pos <= end, "%s with the stream failing at %d (file ends at %d)", ok ? "success" : "failure", pos, end); }
        else EXPECT("alloc", ok ? want == 1 : hit || want != 1, "%s, allocation %s", ok ? "success" : "failure", hit ? "failed" : "did not fail");
        if (ok) content(d, sparse ? 0 : &A, S); else EXPECT("error-result", A.__data == 0, "matrix left behind after an error");
    }
    if (mc_failed()) return; if (S) armassp_free(S); if (A.__data) armas_release(&A); EXPECT("leak", mc_live() == live0, "%ld blocks leaked", mc_live() - live0); mc_outcome(pos);
}
void mc_body(void)
{
    switch (mc_choose("family", 6)) { case 0: t_mutate(); break; case 1: t_banner(); break; case 2: t_odd(); break; case 3: t_round(); break; case 4: t_sround(); break; default: t_fault(); }
}
