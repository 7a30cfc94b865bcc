/* C18: JSON matrix I/O: round trip, malformed and truncated documents, failing streams */
#include "mc.h"
#include "cfg.h"
#include <ctype.h>
#include <math.h>
const char *mc_name = "json";
void mc_setup(void) {}
#define EXPECT(key, cond, ...) do { mc_cmp(1); if (!(cond)) { mc_fail(key, __VA_ARGS__); return; } } while (0)
static int thorough(void) { static int t = -1; if (t < 0) { const char *e = getenv("VERIF_TIER"); t = e && !strcmp(e, "thorough"); } return t; }
/* ---- stream with a failing character position, capacity exact */
typedef struct { char *b; int n, off, fail, puts; int un; } str_t;
static int s_get(void *p) { str_t *s = p; if (s->un >= 0) { int c = s->un; s->un = -1; s->off++; return c; } if (s->off >= s->n || s->off == s->fail) return -1; return (unsigned char)s->b[s->off++]; }
static void s_unget(void *p, int c) { str_t *s = p; s->un = c; s->off--; }
static int s_put(void *p, int c) { str_t *s = p; if (s->puts == s->fail) return -1; s->puts++; if (s->n < 4095) s->b[s->n++] = c; return (unsigned char)c; }
static armas_iostream_vtable_t vt = {.get_char = s_get, .unget_char = s_unget, .put_char = s_put, .close = 0};
/* ---- reference parser: 1 accepted, 0 rejected, 2 either */
typedef struct { const unsigned char *s; int n, i; int grey; } lx_t;
typedef struct { int t; char b[128]; int n; } tk_t; /* t: character, 's' string, 'n' number, 'w' word, 0 end, -1 error */
static void lex(lx_t *l, tk_t *k)
{
    k->n = 0; k->b[0] = 0; while (l->i < l->n && strchr(" \t\r\n", l->s[l->i]) && l->s[l->i]) l->i++;
    if (l->i >= l->n) { k->t = 0; return; } int c = l->s[l->i];
    if (strchr("{}[]:,", c) && c) { l->i++; k->t = c; return; }
    #define ADD(ch) do { if (k->n > 120) { k->t = -1; l->grey = 1; return; } k->b[k->n++] = (ch); k->b[k->n] = 0; } while (0)
    if (c == '"') { l->i++; for (;;) { if (l->i >= l->n) { k->t = -1; return; } c = l->s[l->i++]; if (c == '"') { k->t = 's'; if (k->n > 60) l->grey = 1; return; }
            if (c == '\\') { if (l->i >= l->n) { k->t = -1; return; } c = l->s[l->i++]; const char *p = strchr("\"\\/bfnrt", c); if (p && c) { if (c == 'f') l->grey = 1; ADD("\"\\/\b\f\n\r\t"[p - "\"\\/bfnrt"]); } else if (c == 'u') { int v = 0; for (int q = 0; q < 4; q++) { if (l->i >= l->n || !isxdigit(l->s[l->i])) { k->t = -1; return; } c = l->s[l->i++]; v = v * 16 + (isdigit(c) ? c - '0' : (c | 32) - 'a' + 10); } if (v > 126 || v < 32) l->grey = 1; ADD(v); } else { k->t = -1; return; } }
            else { if (c < 32) l->grey = 1; ADD(c); } } }
    if (c == '-' || isdigit(c)) {
        int st = l->i; if (c == '-') { ADD(c); l->i++; } if (l->i >= l->n || !isdigit(l->s[l->i])) { k->t = -1; return; }
        if (l->s[l->i] == '0' && l->i + 1 < l->n && isdigit(l->s[l->i + 1])) l->grey = 1; /* leading zero */
        while (l->i < l->n && isdigit(l->s[l->i])) { ADD(l->s[l->i]); l->i++; }
        if (l->i < l->n && l->s[l->i] == '.') { ADD('.'); l->i++; if (l->i >= l->n || !isdigit(l->s[l->i])) { k->t = -1; return; } while (l->i < l->n && isdigit(l->s[l->i])) { ADD(l->s[l->i]); l->i++; } }
        if (l->i < l->n && (l->s[l->i] | 32) == 'e') { ADD('e'); l->i++; if (l->i < l->n && strchr("+-", l->s[l->i]) && l->s[l->i]) { ADD(l->s[l->i]); l->i++; } if (l->i >= l->n || !isdigit(l->s[l->i])) { k->t = -1; return; } while (l->i < l->n && isdigit(l->s[l->i])) { ADD(l->s[l->i]); l->i++; } }
        if (l->i < l->n && !strchr(",]} \n\r\t", l->s[l->i])) { k->t = -1; return; }
        if (l->i < l->n && l->s[l->i] == 0) { k->t = -1; return; }
        if (l->i - st > 60) l->grey = 1; k->t = 'n'; return; }
    static const char *w[] = {"true", "false", "null"}; for (int q = 0; q < 3; q++) if (l->n - l->i >= (int)strlen(w[q]) && !memcmp(l->s + l->i, w[q], strlen(w[q]))) { l->i += strlen(w[q]); k->t = 'w'; strcpy(k->b, w[q]); return; }
    k->t = -1;
}
typedef struct { int isnull, r, c; double v[64]; int end; } doc_t;
static int intval(const char *b, int *v) { char *e; long x = strtol(b, &e, 10); if (*e || labs(x) > 2000000000L) return 0; *v = x; return 1; }
static int refparse(const char *s, int n, doc_t *d)
{
    lx_t L = {(const unsigned char *)s, n, 0, 0}, *l = &L; tk_t k; memset(d, 0, sizeof *d); int have = 0, r = 0, c = 0;
    #define REJ do { return l->grey ? 2 : 0; } while (0)
    lex(l, &k); if (k.t == 'w' && !strcmp(k.b, "null")) { d->isnull = 1; d->end = l->i; return l->grey ? 2 : 1; } if (k.t != '{') REJ;
    for (int first = 1;; first = 0) {
        lex(l, &k); if (first && k.t == '}') { d->isnull = 1; d->end = l->i; return l->grey ? 2 : 1; }
        if (k.t != 's') REJ; char key[128]; memcpy(key, k.b, 128); if ((int)strlen(key) != k.n) l->grey = 1; lex(l, &k); if (k.t != ':') REJ;
        if (!strcmp(key, "data")) break;
        int w = !strcmp(key, "rows") ? 1 : !strcmp(key, "cols") ? 2 : !strcmp(key, "nnz") ? 4 : !strcmp(key, "flags") ? 8 : 0; if (!w || (have & w)) REJ;
        lex(l, &k); int v; if (k.t != 'n' || !intval(k.b, &v)) REJ; have |= w; if (w == 1) r = v; if (w == 2) c = v;
        lex(l, &k); if (k.t != ',') REJ;
    }
    if ((have & 3) != 3 || r < 0 || c < 0) REJ; if ((long)r * c > 64) { l->grey = 1; REJ; } /* the reference keeps 64 elements */
    d->r = r; d->c = c; lex(l, &k); if (k.t != '[') REJ;
    int m = r * c; lex(l, &k);
    if (m == 0) { if (k.t != ']') REJ; }
    else if (k.t == '[') for (;;) { int row, col; double v; lex(l, &k); if (k.t != 'n' || !intval(k.b, &row)) REJ; lex(l, &k); if (k.t != ',') REJ; lex(l, &k); if (k.t != 'n' || !intval(k.b, &col)) REJ; lex(l, &k); if (k.t != ',') REJ; lex(l, &k); if (k.t != 'n') REJ; v = strtod(k.b, 0); lex(l, &k); if (k.t != ']') REJ;
            if (row >= 0 && row < r && col >= 0 && col < c) d->v[col * r + row] = v; lex(l, &k); if (k.t == ']') break; if (k.t != ',') REJ; lex(l, &k); if (k.t != '[') REJ; }
    else { for (int i = 0; i < m; i++) { if (i) { if (k.t != ',') REJ; lex(l, &k); } if (k.t != 'n') REJ; d->v[i] = strtod(k.b, 0); lex(l, &k); } if (k.t != ']') REJ; }
    lex(l, &k); if (k.t != '}') REJ; d->end = l->i; return l->grey ? 2 : 1;
}
static const char *DOCS[] = {
    "{\"rows\":2,\"cols\":2,\"data\":[1,-2.5,3e2,0]}", "{\"rows\":1,\"cols\":1,\"data\":[7]}", "{\"cols\":1, \"rows\":2, \"flags\":3,\"nnz\":2, \"data\":[0.25,-1E-3]}",
    "{\"rows\":2,\"cols\":2,\"data\":[[0,0,1],[1,1,-4.5],[2,2,9]]}", "{\"rows\":0,\"cols\":3,\"data\":[]}", "null", " { } ", "{\"rows\":1,\"cols\":2,\"data\":[[0,1,5]]}x",
    "{\"r\\u006fws\":1,\"cols\":1,\"data\":[2]}", "{\"rows\":1,\"cols\":3,\"data\":[12345678.5,1e-300,-0]}" };
enum { NDOC = 10 };
static const char ALPH[] = "{}[]:,\"019-+.eExnu\\ \n@a\x01\xff";   /* and the zero byte */
static void judge(const char *s, int n, int how, int given)
{
    doc_t d; int want = refparse(s, n, &d); long live0 = mc_live(); armas_dense_t own, *A = 0, *arg; memset(&own, 0, sizeof own); if (given) A = &own; arg = A;
    armas_iostream_t ios; str_t st = {.b = (char *)s, .n = n, .fail = -1, .un = -1}; armas_wbuf_t wb = {.buf = (char *)s, .bytes = n, .offset = 0}; FILE *fp = 0; char *copy = 0; int rc;
    switch (how) { case 0: armas_ios_init(&ios, &vt, &st); break; case 1: copy = malloc(n ? n : 1); memcpy(copy, s, n); armas_ios_string(&ios, copy, n); break; case 2: copy = malloc(n ? n : 1); memcpy(copy, s, n); wb.buf = copy; armas_ios_wbuf(&ios, &wb); if (n == 0) break; break; default: fp = fmemopen((void *)s, n ? n : 1, "r"); if (n == 0) fgetc(fp); }
    mc_ops(1); rc = how == 3 ? armas_json_load(&A, fp) : armas_json_read(&A, &ios);
    int next = how == 3 ? fgetc(fp) : armas_ios_getchar(&ios); if (how != 3) armas_ios_close(&ios); if (fp) fclose(fp);
    if (copy && memcmp(copy, s, n)) { mc_fail("source", "input text was changed"); free(copy); return; } free(copy);
    mc_cmp(1);
    if (rc == 0 && want == 0) { mc_fail("accept", "malformed document accepted as %dx%d", A ? A->rows : -1, A ? A->cols : -1); return; }
    if (rc != 0 && want == 1) { mc_fail("reject", "valid document rejected (%d)", rc); return; }
    if (rc > 0) { mc_fail("status", "status %d", rc); return; }
    if (rc < 0) { EXPECT("error-result", A == arg && (!given || !own.__data), "matrix left behind after an error"); EXPECT("leak", mc_live() == live0, "%ld blocks leaked on error", mc_live() - live0); mc_outcome(-rc); return; }
    if (want == 1) {
        if (d.isnull) EXPECT("null", A == 0, "null document gave a matrix");
        else { EXPECT("matrix", A != 0 && A->rows == d.r && A->cols == d.c && (!given || A == &own), "matrix is %dx%d, expected %dx%d", A ? A->rows : -1, A ? A->cols : -1, d.r, d.c);
            for (int j = 0; j < d.c; j++) for (int i = 0; i < d.r; i++) EXPECT("value", armas_get_unsafe(A, i, j) == d.v[j * d.r + i], "element (%d,%d) is %.17g, expected %.17g", i, j, armas_get_unsafe(A, i, j), d.v[j * d.r + i]); }
        int e = d.end < n ? (unsigned char)s[d.end] : -1; EXPECT("position", next == e, "stream is at character %d, expected %d", next, e);
    }
    if (A && !given) armas_free(A); else if (given) armas_release(&own);
    EXPECT("leak", mc_live() == live0, "%ld blocks leaked", mc_live() - live0); mc_outcome(mc_hash(d.v, sizeof d.v, d.r * 8 + d.c));
}
static void t_mutate(void)
{
    int k = mc_choose("document", NDOC), n = strlen(DOCS[k]), op = mc_choose("mutation", 5), na = sizeof ALPH, pos, ch = 0, p2 = 0, how = 0, given = 0;
    pos = mc_choose("position", n + 1); if (op == 2 || op == 3) ch = mc_choose("char", na);
    if (op == 4) { if (!thorough() && k != 1 && k != 7 && k != 4) { if (mc_begin()) mc_ops(1); return; } p2 = mc_choose("second", (thorough() ? n : 3) * na); if (!thorough() && p2 >= na) { if (mc_begin()) mc_ops(1); return; } ch = mc_choose("char", na); }
    if (op < 2) { how = mc_choose("stream", 4); given = mc_choose("given", 2); } else { how = (pos + ch) & 3; given = (pos + ch) >> 2 & 1; }
    if (!mc_begin()) return;
    char b[256]; memcpy(b, DOCS[k], n + 1); int len = n;
    #define SUB(p, c) do { if ((p) < len) b[p] = (c); } while (0)
    #define INS(p, c) do { memmove(b + (p) + 1, b + (p), len - (p)); b[p] = (c); len++; } while (0)
    #define DEL(p) do { if ((p) < len) { memmove(b + (p), b + (p) + 1, len - (p) - 1); len--; } } while (0)
    switch (op) { case 0: len = pos; break; case 1: DEL(pos); break; case 2: SUB(pos, ALPH[ch]); break; case 3: INS(pos, ALPH[ch]); break;
    default: SUB(pos, ALPH[ch]); { int q = pos + 1 + p2 / na; if (q <= len) INS(q, ALPH[p2 % na]); } }
    b[len] = 0; mc_note("%.*s stream %d given %d", len, b, how, given);
    judge(b, len, how, given);
}
static void t_round(void)
{
    int r = mc_range("rows", 0, thorough() ? 5 : 3), c = mc_range("cols", 0, thorough() ? 5 : 3), lay = mc_choose("layout", 2), vals = mc_choose("values", 5), fl = MC_PICK("flags", 0, 1, 64), how = mc_choose("stream", 3), nul = mc_choose("null", 2), given = mc_choose("given", 2);
    if (!mc_begin()) return;
    mc_note("round trip %dx%d layout %d values %d flags %d stream %d%s", r, c, lay, vals, fl, how, nul ? " null" : ""); long live0 = mc_live();
    gm_t g; gm_new(&g, r, c, lay ? LP : LT); static const double VT[5][9] = {{0, 1, -1, 2, -3, 10, 100, -7, 64}, {0.5, -0.25, 1.0 / 3, 2.0 / 3, 1e10 / 7, -1e-10 / 7, 0.1, 0.2, 0.3}, {1e300, -1e300, 1e-300, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1e-310, 1e100, 1e-100}, {123456789, 987654321.125, 1e15, 1e16, -1e14 - 1, 2147483648.0, 4294967296.0, -2147483649.0, 1e9}, {-0.0, 1e-5, 1e5, 99999.5, 1e-4, 0.00012, 1e20, 1e21, 1e22}};
    for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) G(&g, i, j) = VT[vals][(i * 4 + j) % 9]; gm_snap(&g);
    char buf[4096]; armas_iostream_t ios; str_t st = {.b = buf, .n = 0, .fail = -1, .un = -1}; armas_wbuf_t wb = {.buf = buf, .bytes = 4096, .offset = 0}; FILE *fp = 0; int rc, len;
    const armas_dense_t *W = nul ? 0 : &g.m; mc_ops(2);
    if (how == 0) { armas_ios_init(&ios, &vt, &st); rc = armas_json_write(&ios, W, fl); len = st.n; } else if (how == 1) { armas_ios_wbuf(&ios, &wb); rc = armas_json_write(&ios, W, fl); len = wb.offset; } else { fp = fmemopen(buf, 4096, "w"); rc = armas_json_dump(fp, W, fl); fflush(fp); len = ftell(fp); fclose(fp); }
    EXPECT("write", rc == 0, "write failed (%d)", rc); gm_same(&g, "matrix written"); doc_t d; int ok = refparse(buf, len, &d);
    EXPECT("well-formed", (long)r * c > 64 || (ok == 1 && d.end == len), "written text is not a valid document: %.*s", len > 200 ? 200 : len, buf);
    armas_dense_t own, *A = 0; memset(&own, 0, sizeof own); if (given) A = &own;
    if (how == 0) { str_t in = {.b = buf, .n = len, .fail = -1, .un = -1}; armas_ios_init(&ios, &vt, &in); rc = armas_json_read(&A, &ios); } else if (how == 1) { armas_ios_string(&ios, buf, len); rc = armas_json_read(&A, &ios); armas_ios_close(&ios); } else { fp = fmemopen(buf, len, "r"); rc = armas_json_load(&A, fp); fclose(fp); }
    EXPECT("read", rc == 0, "read failed (%d) for %.*s", rc, len > 200 ? 200 : len, buf);
    if (nul) EXPECT("null", A == 0, "null was read as a matrix");
    else { EXPECT("dims", A && A->rows == r && A->cols == c, "read %dx%d", A ? A->rows : -1, A ? A->cols : -1);
        for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) { double v = armas_get_unsafe(A, i, j), w = G(&g, i, j); EXPECT("value", fabs(v - w) <= fabs(w) * 1e-13, "element (%d,%d) is %.17g, written %.17g", i, j, v, w); if (w == (long)w && fabs(w) < 1e14) EXPECT("value", v == w, "element (%d,%d) is %.17g, written %.17g", i, j, v, w); } }
    if (A && !given) armas_free(A); else if (given) armas_release(&own);
    EXPECT("leak", mc_live() == live0, "%ld blocks leaked", mc_live() - live0); mc_outcome(mc_hash(buf, len, 1));
}
static void t_fault(void)
{
    int k = mc_choose("document", NDOC), kind = mc_choose("fault", 4), n = strlen(DOCS[k]), pos = mc_choose("position", kind >= 2 ? 4 : n + 1), given = mc_choose("given", 2);
    if (!mc_begin()) return;
    static const char *fn[] = {"read fails", "write fails", "allocation fails (read)", "non-finite value"}; mc_note("%s at %d, document %d", fn[kind], pos, k); long live0 = mc_live(); doc_t d; int ok = refparse(DOCS[k], n, &d); (void)ok;
    armas_iostream_t ios; armas_dense_t own, *A = 0; memset(&own, 0, sizeof own); if (given) A = &own; int rc; mc_ops(1);
    if (kind == 0) { str_t st = {.b = (char *)DOCS[k], .n = n, .fail = pos, .un = -1}; armas_ios_init(&ios, &vt, &st); rc = armas_json_read(&A, &ios);
        EXPECT("fault", (rc == 0) == (pos >= d.end), "status %d with the stream failing at %d (document ends at %d)", rc, pos, d.end); }
    else if (kind == 1) { if (given || d.isnull) return; gm_t g; gm_new(&g, d.r, d.c, LT); for (int j = 0; j < d.c; j++) for (int i = 0; i < d.r; i++) G(&g, i, j) = d.v[j * d.r + i]; char buf[4096]; str_t st = {.b = buf, .fail = -1, .un = -1}; armas_ios_init(&ios, &vt, &st); rc = armas_json_write(&ios, &g.m, 0); int len = st.n; EXPECT("write", rc == 0, "write failed");
        for (int q = 0; q <= len; q++) { st = (str_t){.b = buf, .fail = q, .un = -1}; armas_ios_init(&ios, &vt, &st); rc = armas_json_write(&ios, &g.m, 0); EXPECT("fault", (rc == 0) == (q >= len), "status %d with the stream failing at character %d of %d", rc, q, len); }
        armas_wbuf_t wb; for (int q = 0; q <= len; q++) { char *m = malloc(q + 1); wb = (armas_wbuf_t){.buf = m, .bytes = q, .offset = 0}; armas_ios_wbuf(&ios, &wb); rc = armas_json_write(&ios, &g.m, 0); free(m); EXPECT("fault", (rc == 0) == (q >= len), "status %d with a buffer of %d bytes, %d needed", rc, q, len); }
        return; }
    else if (kind == 2) { str_t st = {.b = (char *)DOCS[k], .n = n, .fail = -1, .un = -1}; armas_ios_init(&ios, &vt, &st); mc_fail_alloc(pos + 1); rc = armas_json_read(&A, &ios); int hit = mc_alloc_failed() > 0; mc_fail_alloc(0); EXPECT("alloc", (rc < 0) == hit, "status %d, allocation %s", rc, hit ? "failed" : "did not fail");
        if (rc == 0 && !d.isnull) EXPECT("dims", A && A->rows == d.r && A->cols == d.c, "wrong matrix"); }
    else { gm_t g; gm_new(&g, 2, 2, LT); gm_ints(&g, 1, 1, 4); ((double *)&G(&g, pos & 1, pos >> 1))[0] = k & 1 ? NAN : k & 2 ? INFINITY : -INFINITY; char buf[4096]; str_t st = {.b = buf, .fail = -1, .un = -1}; armas_ios_init(&ios, &vt, &st); rc = armas_json_write(&ios, &g.m, 0); doc_t e;
        EXPECT("non-finite", rc < 0 || refparse(buf, st.n, &e) == 1, "text without meaning written with success: %.*s", st.n, buf); return; }
    if (rc < 0) EXPECT("error-result", A == (given ? &own : 0) && !own.__data, "matrix left behind after an error");
    if (rc == 0 && A && !given) armas_free(A); else if (given) armas_release(&own);
    EXPECT("leak", mc_live() == live0, "%ld blocks leaked", mc_live() - live0); mc_outcome(rc);
}
void mc_body(void)
{
    switch (mc_choose("family", 3)) { case 0: t_mutate(); break; case 1: t_round(); break; default: t_fault(); }
}
