/* C25: settings from environment variables; every case in a fresh process */
#define _GNU_SOURCE 1
#include "mc.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <ctype.h>
#include <sched.h>
#include <pthread.h>
#include "armas.h"
#include "accel.h"
const char *mc_name = "env";
static struct shm { int done, envchanged, badop, nset, again; armas_env_t e; struct armas_ac_env a; int pin[64]; armas_conf_t c; char what[128]; } *R;
static long nprocs = 4;
long __real_sysconf(int); long __wrap_sysconf(int k) { return k == _SC_NPROCESSORS_ONLN ? nprocs : __real_sysconf(k); }
int __wrap_pthread_setaffinity_np(pthread_t t, size_t n, const cpu_set_t *s) { if (R->nset < 64) { int c = -1; for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, s)) c = c == -1 ? i : -2; R->pin[R->nset++] = c; } return 0; }
void mc_setup(void) { R = mmap(0, sizeof *R, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0); }
#define EXPECT(key, cond, ...) do { mc_cmp(1); if (!(cond)) { mc_fail(key, __VA_ARGS__); return; } } while (0)
static const char *VAR[3] = {"ARMAS_CONFIG", "ARMAS_CACHE", "ARMAS_AC_CONFIG"};
static int thorough(void) { const char *e = getenv("VERIF_TIER"); return e && !strcmp(e, "thorough"); }
/* operations with exact results under any settings */
static int ops(armas_conf_t *cf, int M, int N, int K)
{
    armas_dense_t C, A, B; static double c[60*60], a[60*60], b[60*60]; armas_make(&C, M, N, M, c); armas_make(&A, M, K, M, a); armas_make(&B, K, N, K, b);
    for (int i = 0; i < M * K; i++) a[i] = i * 7 % 11 - 5; for (int i = 0; i < N * K; i++) b[i] = i * 5 % 9 - 4; for (int i = 0; i < M * N; i++) c[i] = i % 5;
    if (armas_mult(2.0, &C, 3.0, &A, &B, 0, cf) < 0) { sprintf(R->what, "product: error %d", cf->error); return 1; }
    for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) { double s = 2.0 * ((i + j * M) % 5); for (int k = 0; k < K; k++) s += 3 * a[i + k*M] * b[k + j*K]; if (C.elems[i + j*M] != s) { sprintf(R->what, "product: element (%d,%d) is %g, not %g", i, j, C.elems[i + j*M], s); return 1; } }
    if (cf->accel) return 0;
    armas_dense_t L; int n = 13; armas_make(&L, n, n, n, a); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) a[i + j*n] = i == j ? 1 : (i * 3 + j * 5) % 3 - 1;
    armas_make(&B, n, 3, n, b); for (int i = 0; i < 3 * n; i++) b[i] = c[i] = i % 7 - 3;
    if (armas_mult_trm(&B, 1.0, &L, ARMAS_LEFT|ARMAS_LOWER|ARMAS_UNIT, cf) < 0 || armas_solve_trm(&B, 1.0, &L, ARMAS_LEFT|ARMAS_LOWER|ARMAS_UNIT, cf) < 0) { sprintf(R->what, "triangular: error %d", cf->error); return 1; }
    for (int i = 0; i < 3 * n; i++) if (fabs(b[i] - c[i]) > 1e-9) { sprintf(R->what, "triangular product undone: element %d is %g, not %g", i, b[i], c[i]); return 1; }
    static double x[40], y[40]; armas_dense_t X, Y; armas_make(&X, n, 1, n, x); armas_make(&Y, n, 1, n, y); for (int i = 0; i < n; i++) x[i] = i - 4, y[i] = 1;
    armas_mvmult(1.0, &Y, 2.0, &L, &X, 0, cf); for (int i = 0; i < n; i++) { double s = 1; for (int k = 0; k < n; k++) s += 2 * a[i + k*n] * x[k]; if (y[i] != s) { sprintf(R->what, "matrix-vector product: element %d is %g, not %g", i, y[i], s); return 1; } }
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) b[i + j*n] = c[i + j*n] = a[i + j*n] = i == j ? 20 : (i * j) % 3 - 1;
    armas_pivot_t P; armas_pivot_init(&P, n); for (int i = 0; i < n; i++) y[i] = i; armas_dense_t Z; armas_make(&Z, n, 1, n, y);
    if (armas_lufactor(&L, &P, cf) < 0 || armas_lusolve(&Z, &L, &P, 0, cf) < 0) { sprintf(R->what, "LU: error %d", cf->error); return 1; }
    for (int i = 0; i < n; i++) { double s = 0; for (int k = 0; k < n; k++) s += c[i + k*n] * y[k]; if (fabs(s - i) > 1e-10) { sprintf(R->what, "LU solution: residual %g", s - i); return 1; } }
    armas_pivot_release(&P); return 0;
}
/* what: 1 operations, 2 operations on an accelerator, 4 accelerator settings only */
static int child(const char *v, const char *s, int what)
{
    memset(R, 0, sizeof *R); fflush(0); pid_t p = fork();
    if (p == 0) {
        alarm(6); for (int i = 0; i < 3; i++) unsetenv(VAR[i]); if (s) setenv(v, s, 1); const char *in = getenv(v); char *copy = in ? strdup(in) : 0;
        armas_env_t *e = armas_getenv(); R->e = *e; struct armas_ac_env *a = armas_ac_getenv(); R->a = *a; R->c = *armas_conf_default(); e = armas_getenv(); R->again = memcmp(e, &R->e, sizeof R->e) != 0 || memcmp(armas_ac_getenv(), &R->a, sizeof R->a) != 0;
        armas_conf_t cf = *armas_conf_default(); cf.error = 0;
        if (what & 1) R->badop = ops(&cf, 9, 7, 11); if ((what & 1) && !R->badop) R->badop = ops(&cf, 37, 40, 22);
        for (int k = 0; k < 3 && (what & 2) && !R->badop; k++) { armas_ac_handle_t h = 0; static const char *NM[] = {"simple", "transient", "workers"};
            R->nset = 0; if (armas_ac_init(&h, NM[k]) < 0) { if (k == 0) sprintf(R->what, "accelerator %s does not start", NM[k]); R->badop = 1; break; }
            cf.accel = h; R->badop = ops(&cf, 20, 24, 6); armas_ac_release(h); cf.accel = 0; }
        const char *out = getenv(v); R->envchanged = (in != 0) != (out != 0) || (copy && (out != in || strcmp(out, copy))); R->done = 1; _exit(0);
    }
    int st = 0; waitpid(p, &st, 0); mc_ops(1); mc_note("%s=%s%s%s nproc=%ld", v, s ? "'" : "", s ? s : "(unset)", s ? "'" : "", nprocs);
    if (WIFSIGNALED(st)) { mc_fail(WTERMSIG(st) == SIGALRM ? "hang" : "crash", "process ended by signal %d", WTERMSIG(st)); return -1; }
    if (!R->done) { mc_fail("crash", "process exited with status %d", WEXITSTATUS(st)); return -1; }
    mc_cmp(3); if (R->envchanged) { mc_fail("environment", "the process environment was changed"); return -1; }
    if (R->again) { mc_fail("again", "reading the settings again gives other values"); return -1; }
    if (R->badop) { mc_fail("operation", "%s", R->what); return -1; }
    if (R->c.optflags || R->c.work || R->c.accel || R->c.tolmult != 10) { mc_fail("defaults", "default configuration is not as documented"); return -1; }
    return 0;
}
/* independent reading: number at the start of a field; *st 0 none or non-positive, 1 positive, 2 not judged */
static double num(const char *s, int n, int *st, int hex, int *used)
{
    int i = 0, neg = 0, d = 0; double v = 0; while (i < n && isspace((unsigned char)s[i])) i++; if (i < n && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
    if (hex && i + 1 < n && s[i] == '0' && (isdigit((unsigned char)s[i+1]) || tolower(s[i+1]) == 'x')) { *st = 2; *used = 0; return 0; } /* octal, hexadecimal */
    while (i < n && isdigit((unsigned char)s[i])) { v = v * 10 + (s[i++] - '0'); d++; } *used = i; *st = !d || neg || v == 0 ? 0 : 1; return v;
}
static int fields(const char *s, const char **f, int *len) { int n = 0; if (!s) return 0; for (;;) { const char *e = strchr(s, ','); f[n] = s; len[n] = e ? (int)(e - s) : (int)strlen(s); if (++n == 12) return n; if (!e) return n; s = e + 1; } }
static void check_config(const char *s)
{
    static const int D[6] = {64, 64, 160, 64, 1024, 256}; static const char *N[] = {"mb", "nb", "kb", "lb", "b1min", "b2min"}; const char *f[12]; int l[12], n = fields(s, f, l);
    int got[6] = {R->e.mb, R->e.nb, R->e.kb, R->e.lb, R->e.blas1min, R->e.blas2min};
    for (int i = 0; i < 6; i++) { int st = 0, u; double v = i < n ? num(f[i], l[i], &st, 0, &u) : 0; if (st == 1 && v > 2147483647.0) st = 2;
        if (st == 2) { EXPECT("positive", got[i] > 0, "%s is %d", N[i], got[i]); continue; } EXPECT("setting", got[i] == (st ? (int)v : D[i]), "%s is %d, %s %d", N[i], got[i], st ? "written" : "default", st ? (int)v : D[i]); }
    if (n <= 7) { char c = n == 7 && l[6] ? tolower(f[6][0]) : 0; if (c == 'y') EXPECT("setting", R->e.fixed == 1, "fixed is %d", R->e.fixed); if (c == 0 || c == 'n') EXPECT("setting", R->e.fixed == 0, "fixed is %d", R->e.fixed); }
    EXPECT("setting", R->e.cmem == 256*1024 && R->e.l1mem == 32*1024, "cache sizes are %zu, %zu", (size_t)R->e.cmem, (size_t)R->e.l1mem); mc_outcome(mc_hash(got, sizeof got, R->e.fixed));
}
static void check_cache(const char *s)
{
    const char *f[12]; int l[12], n = fields(s, f, l); double got[2] = {R->e.cmem, R->e.l1mem}, D[2] = {256*1024, 32*1024}, MIN[2] = {4096, 1024}; static const char *N[] = {"memsize", "l1size"};
    for (int i = 0; i < 2; i++) { int st = 0, u = 0; double v = i < n ? num(f[i], l[i], &st, 1, &u) : 0; if (i < n && st == 1 && u < l[i]) { char c = toupper(f[i][u]); if (c == 'K') v *= 1024; else if (c == 'M') v *= 1048576; else if (!isspace(c)) st = 2; }
        if (st == 1 && v >= 9e18) st = 2; if (st == 2) { EXPECT("minimum", got[i] >= MIN[i], "%s is %.0f", N[i], got[i]); continue; }
        double w = st ? v < MIN[i] ? MIN[i] : v : D[i]; if (i == 1 && st && w >= got[0]) { EXPECT("minimum", got[1] >= MIN[1], "l1size is %.0f", got[1]); continue; }
        EXPECT("setting", got[i] == w || (i == 1 && D[1] >= got[0]), "%s is %.0f, %s %.0f", N[i], got[i], st ? "written" : "default", w); }
    EXPECT("setting", R->e.mb == 64 && R->e.nb == 64 && R->e.kb == 160 && R->e.lb == 64, "blocking changed"); mc_outcome(mc_hash(got, sizeof got, 0));
}
/* value of one CPU specification; 0 not judged */
static int cpus(const char *t, int n, cpu_set_t *c)
{
    char b[64]; if (n >= 63) return 0; memcpy(b, t, n); b[n] = 0; unsigned a, e, s, k; unsigned long long x; int w = 0; if (!n) return 1; for (int i = 0; i < n; i++) if (!strchr("0123456789abcdefx:-/", b[i])) return 0; 
    #define ALL(fmt, ...) (w = 0, sscanf(b, fmt "%n", __VA_ARGS__, &w), w == n)
    if (n > 10 && !strchr(b, ':')) return 0; if (!isdigit((unsigned char)b[0])) return 0; if (strstr(b, "/-") || strstr(b, "--") || strstr(b, ":-")) return 0;
    if (b[1] == 'x') { if (!isxdigit((unsigned char)b[2]) || strchr(b, ':') || !ALL("%llx", &x)) return 0; for (k = 0; k < 64 && k < nprocs; k++) if (x >> k & 1) CPU_SET(k, c); return 1; }
    if (ALL("%u:0x%llx", &a, &x) || (!strchr(b, 'x') && ALL("%u:%llu", &a, &x) && !(strchr(b, ':')[1] == '0'))) { if (a > 1000) return 0; for (k = 0; k < 64 && a + k < nprocs; k++) if (x >> k & 1) CPU_SET(a + k, c); return 1; }
    if (ALL("%u-%u", &a, &e)) { for (k = a; k <= e && k < nprocs; k++) CPU_SET(k, c); return 1; }
    if (ALL("%u-%u/%u", &a, &e, &s)) { if (!s) return 0; for (k = a; k <= e && k < nprocs; k += s) CPU_SET(k, c); return 1; }
    if (ALL("%u", &a)) { if (a < nprocs) CPU_SET(a, c); return 1; }
    return 0;
}
static void check_ac(const char *s, int ran)
{
    const char *f[12]; int l[12], n = fields(s, f, l), st = 0, u; double v = n > 0 ? num(f[0], l[0], &st, 0, &u) : 0;
    if (st && v < 2e9) EXPECT("setting", R->a.num_items == v, "elements per thread is %zu, written %.0f", R->a.num_items, v); else if (!st) EXPECT("setting", R->a.num_items == 160000, "elements per thread is %zu, default 160000", R->a.num_items);
    st = 0; v = n > 1 ? num(f[1], l[1], &st, 0, &u) : 0; double w = st && v < nprocs ? v : nprocs; if (v < 2e9) EXPECT("setting", R->a.max_cores == w, "threads is %zu, not %.0f", R->a.max_cores, w); EXPECT("setting", R->a.max_cores > 0 && R->a.max_cores <= nprocs, "threads is %zu", R->a.max_cores);
    int opt = 0, judge = 1; if (n > 2) { const char *p = f[2], *e = p + l[2]; if (p < e && strchr("BTbt", *p)) { opt |= toupper(*p++) == 'B' ? ARMAS_OBLAS_BLOCKED : ARMAS_OBLAS_TILED; if (p < e && strchr("RZrz", *p)) opt |= toupper(*p++) == 'R' ? ARMAS_OSCHED_ROUNDROBIN : ARMAS_OSCHED_RANDOM; } if (p < e && *p == '2') { opt |= ARMAS_OSCHED_TWO; p++; } judge = p == e; }
    if (judge) EXPECT("setting", R->a.options == opt, "policy options are 0x%x, written 0x%x", R->a.options, opt);
    cpu_set_t c; CPU_ZERO(&c); int ok = n < 12; for (int i = 3; i < n; i++) if (!cpus(f[i], l[i], &c)) ok = 0;
    if (ok) EXPECT("setting", !memcmp(&c, &R->a.cpus, sizeof c), "set of CPUs is not the one written (%d CPUs, should be %d)", CPU_COUNT(&R->a.cpus), CPU_COUNT(&c));
    if (ran) for (int i = 0; i < R->nset; i++) EXPECT("pin", R->pin[i] >= 0 && CPU_ISSET(R->pin[i], &R->a.cpus), "thread pinned to CPU %d", R->pin[i]);
    if (ran && ok && CPU_COUNT(&c) > 0 && R->a.num_items <= 64) { cpu_set_t g; CPU_ZERO(&g); for (int i = 0; i < R->nset; i++) CPU_SET(R->pin[i], &g); int need = CPU_COUNT(&c) < R->a.max_cores ? CPU_COUNT(&c) : R->a.max_cores; EXPECT("pin", CPU_COUNT(&g) == need, "threads are pinned to %d CPUs, expected %d", CPU_COUNT(&g), need); }
    mc_outcome(mc_hash(&R->a.cpus, sizeof R->a.cpus, R->a.options * 31 + R->a.num_items * 7 + R->a.max_cores));
}
static void judge(int var, const char *s, int what) { if (child(VAR[var], s, what) < 0) return; if (var == 0) check_config(s); else if (var == 1) check_cache(s); else check_ac(s, what & 2); if (var == 2) { EXPECT("setting", R->e.mb == 64 && R->e.cmem == 256*1024, "blocking changed"); } }
static void add(char *b, const char *t, int first) { if (!first) strcat(b, ","); strcat(b, t); }
void mc_body(void)
{
    static const char *CV[] = {"", "0", "-3", "7", " 12", "x", "9y", "300", "99999999999", "+5", "2"}, *FV[] = {"", "y", "Yes", "n", "1", "N"};
    static const char *MV[] = {"", "0", "-1", "1", "4096", "8k", "1M", "64K", " 20000", "x", "k", "0x4000", "7000", "5000000000k", "16m"};
    static const char *EV[] = {"", "0", "-2", "64", "1", " 30", "x", "100000"}, *NV[] = {"", "0", "1", "2", "3", "-1", "40", "x"}, *PV[] = {"", "B", "t", "BR", "tZ", "TR2", "2", "b2", "bz2", "q", "R", "B3", "BRx"};
    static const char *UV[] = {"", "0", "1", "3", "9", "0-2", "1-9", "0-3/2", "1-3/1", "0-3/0", "0-3/-1", "-", "3-1", "0x5", "0xf0", "0:3", "1:0x3", "2:1", ":", "x", "0x", "-3", "5:", "0xffffffffffffffff", "31:1", "0x80000000", "0x100000000", "0x300000000", "31", "33", "30-39/3", "20:0x80000001", "2147483647:3", "99999999999", "1-99999999999", "0x8000000000000001"};
    #define CNT(a) ((int)(sizeof a / sizeof *a))
    int T = thorough(); char b[400] = ""; int mode = mc_choose("part", 8);
    if (mode == 0) { /* fields of the blocking variable: two fields vary, the others empty or given; any number of fields */
        int base = mc_choose("others", 2), nf = mc_range("fields", 0, 8), i = mc_choose("field1", 7), j = mc_choose("field2", 7); if (i > j || j >= (nf ? nf : 1)) return; int vi = mc_choose("value1", i == 6 ? CNT(FV) : CNT(CV)), vj = mc_choose("value2", i == j ? 1 : j == 6 ? CNT(FV) : CNT(CV));
        int bk = T && i != j && nf > 3 ? 1 : 0; if (!mc_begin()) return; (void)bk; static const char *B[8] = {"16", "24", "32", "5", "40", "20", "n", "3"};
        for (int k = 0; k < nf; k++) add(b, k == i ? i == 6 ? FV[vi] : CV[vi] : k == j ? j == 6 ? FV[vj] : CV[vj] : base ? B[k] : "", k == 0);
        int big = strstr(b, "99999999999") != 0, fx = strchr(b, 'y') || strchr(b, 'Y'); judge(0, nf ? b : 0, big || fx ? 0 : 1); }
    else if (mode == 1 || mode == 2 || mode == 6) { /* all strings over an alphabet */
        static const char *AL[] = {"", "10-,yx ", "19-,KMx", "", "", "", "2,Br-1:/x"}; const char *al = AL[mode]; int k = strlen(al), L = T ? (mode == 6 ? 5 : 6) : 4, n = mc_range("length", 0, L), q[8]; static const char *NM[] = {"c0", "c1", "c2", "c3", "c4", "c5"}; for (int i = 0; i < n; i++) q[i] = mc_choose(NM[i], k);
        if (!mc_begin()) return; char t[8]; for (int i = 0; i < n; i++) t[i] = al[q[i]]; t[n] = 0; if (mode == 6) { sprintf(b, "5,3,%s", t); judge(2, b, 0); } else judge(mode - 1, t, 0); }
    else if (mode == 3) { int nf = mc_range("fields", 0, 3), i = mc_choose("memsize", CNT(MV)), j = mc_choose("l1size", nf < 2 ? 1 : CNT(MV)), k = mc_choose("rest", nf < 3 ? 1 : 2); if (!mc_begin()) return; if (nf == 0) { judge(1, i ? "," : 0, 1); return; } add(b, MV[i], 1); if (nf > 1) add(b, MV[j], 0); if (nf > 2) add(b, k ? "9k" : "", 0); judge(1, b, strstr(b, "5000000000") ? 0 : 1); }
    else if (mode == 4) { static const int NP[] = {1, 4, 40, 64}; int np = mc_choose("processors", 4), nf = mc_range("fields", 0, 3), e = mc_choose("elements", nf < 1 ? 1 : CNT(EV)), m = mc_choose("threads", nf < 2 ? 1 : CNT(NV)), p = mc_choose("policy", nf < 3 ? 1 : CNT(PV)); if (!mc_begin()) return; nprocs = NP[np]; if (!nf) { judge(2, e ? "" : 0, 0); nprocs = 4; return; } add(b, EV[e], 1); if (nf > 1) add(b, NV[m], 0); if (nf > 2) add(b, PV[p], 0); judge(2, b, 0); nprocs = 4; }
    else if (mode == 5) { static const int NP[] = {1, 4, 40, 64}; int np = mc_choose("processors", 4), nf = mc_range("specifications", 1, 2), i = mc_choose("cpu1", CNT(UV)), j = mc_choose("cpu2", nf < 2 ? 1 : CNT(UV)); if (!mc_begin()) return; nprocs = NP[np]; sprintf(b, "64,2,,%s", UV[i]); if (nf > 1) add(b, UV[j], 0); judge(2, b, 0); nprocs = 4; }
    else if (mode == 7) { /* accelerators run with the settings */
        static const char *CP[] = {"", "0", "2", "0-3", "1,3", "0-3/2", "0x6", "1:3"}; static const char *E2[] = {"", "64", "10", "1", "200"}; int e = mc_choose("elements", CNT(E2)), m = mc_choose("threads", 5), p = mc_choose("policy", 9), c = mc_choose("cpus", CNT(CP)); if (!mc_begin()) return; sprintf(b, "%s,%s,%s,%s", E2[e], NV[m], PV[p], CP[c]); judge(2, b, 2); }
}
