#define _GNU_SOURCE
#include "mc.h"
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <stdatomic.h>

#ifdef MC_CONC
extern void *__real_memset(void *, int, size_t), *__real_memcpy(void *, const void *, size_t);
#define memset __real_memset
#define memcpy __real_memcpy
#endif
#define MAXD 48
#define MAXLAB 96
#define MAXW 64
#define OUTBITS (1u << 20)

typedef struct {
    volatile long index;            /* case being run (or last run) */
    volatile long cases, ops, cmps, enumerated;
    volatile double start;          /* when the current case started, 0: idle */
    volatile double limit;
    volatile int done, capped, abandon;
    int plen, path[MAXD];
    const char *lab[MAXD]; int lim[MAXD];
    int nsamp; char samp[4][512];
    char note[512];
} slot_t;
typedef struct {
    slot_t w[MAXW];
    int nlab; char labs[MAXLAB][40]; int labmax[MAXLAB];
    _Atomic unsigned char out[OUTBITS / 8];
} shm_t;

static shm_t *shm;
static slot_t *me;
static int path[MAXD], lim[MAXD], plen, depth;
static const char *lab[MAXD];
static int nshards = 8, shard, replay, nfail_case;
static long index_now, skip_to;
static double budget = 600, t0, case_limit = 60;
static FILE *vf;
static char note[1024];
static int total_fail;
int mc_thorough, mc_poison = 1;

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static void die(const char *m) { fprintf(stderr, "mc: internal error: %s\n", m); _exit(97); }

/* ---- choices */
static int labels_known = 0;
static void reglab(const char *l, int n)
{
    /* every worker enumerates everything: worker 0 registers */
    if (shard != 0 || !shm) return;
    static const char *cp[MAXD]; static int cn[MAXD];
    if (cp[depth] == l && cn[depth] >= n) return;
    cp[depth] = l; cn[depth] = n;
    for (int i = 0; i < shm->nlab; i++)
        if (!strcmp(shm->labs[i], l)) { if (n > shm->labmax[i]) shm->labmax[i] = n; return; }
    if (shm->nlab < MAXLAB) { snprintf(shm->labs[shm->nlab], 40, "%s", l); shm->labmax[shm->nlab++] = n; }
    (void)labels_known;
}
int mc_choose(const char *label, int n)
{
    if (n <= 0) die("empty choice");
    if (depth >= MAXD) die("too deep");
    if (depth < plen) { if (path[depth] >= n) die("choice out of range in replay"); }
    else { path[depth] = 0; plen++; }
    lim[depth] = n; lab[depth] = label;
    reglab(label, n);
    return path[depth++];
}
int mc_pickv(const char *label, const int *v, int n) { return v[mc_choose(label, n)]; }
double mc_pickd(const char *label, const double *v, int n) { return v[mc_choose(label, n)]; }
int mc_range(const char *label, int lo, int hi) { return lo + mc_choose(label, hi - lo + 1); }

static void casestr(char *b, size_t n)
{
    size_t k = 0; b[0] = 0;
    for (int i = 0; i < depth && k < n - 1; i++) k += snprintf(b + k, n - k, "%s%s=%d", i ? "," : "", lab[i], path[i]);
    if (note[0] && k < n - 1) snprintf(b + k, n - k, " [%s]", note);
}
bool mc_begin(void)
{
    if (replay) { return true; }
    long ix = index_now++;
    if (shard == 0) me->enumerated = index_now;
    if (ix < skip_to) return false;
    if ((int)((((uint64_t)ix * 0x9E3779B97F4A7C15ull) >> 33) % nshards) != shard) return false;
    me->index = ix; me->plen = depth;
    memcpy(me->path, path, sizeof(int) * depth);
    note[0] = 0; nfail_case = 0;
    me->limit = case_limit;
    me->start = now();
    me->cases++;
    return true;
}
static void end_case(void)
{
    if (me->start != 0) {
        long c = me->cases;
        if (me->nsamp < 4 && (c == 1 || c == 10 || c == 100 || c == 1000)) casestr(me->samp[me->nsamp++], sizeof me->samp[0]);
        me->start = 0;
    }
}
void mc_abandon(void)
{
    fflush(0);
    if (replay) _exit(nfail_case ? 1 : 0);
    me->abandon = 1; _exit(0);
}
int mc_shard(void) { return shard; }
int mc_overbudget(void) { return !replay && now() - t0 > budget; }
void mc_capped(void) { me->capped = 1; }
void mc_case_timeout(double s) { case_limit = s; if (me) me->limit = s; }
int mc_failed(void) { return nfail_case; }
void mc_ops(int n) { me->ops += n; }
void mc_cmp(int n) { me->cmps += n; }
uint64_t mc_hash(const void *p, size_t n, uint64_t h)
{
    const unsigned char *s = p; h ^= 0xcbf29ce484222325ull;
    for (size_t i = 0; i < n; i++) { h ^= s[i]; h *= 0x100000001b3ull; }
    return h ^ (h >> 29);
}
void mc_outcome(uint64_t h)
{
    h *= 0x9E3779B97F4A7C15ull; unsigned b = (h >> 40) % OUTBITS;
    shm->out[b / 8] |= 1u << (b % 8);
}
void mc_note(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vsnprintf(note, sizeof note, fmt, ap); va_end(ap); if (me) snprintf(me->note, sizeof me->note, "%s", note); }
static void wr(const char *key, const char *text)
{
    char cs[1500]; casestr(cs, sizeof cs);
    fprintf(vf, "%s\t", key);
    for (int i = 0; i < depth; i++) fprintf(vf, "%s%d", i ? "," : "", path[i]);
    fprintf(vf, "\t%s\t%s\n", cs, text);
    fflush(vf);
}
void mc_fail(const char *key, const char *fmt, ...)
{
    char b[700]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    for (char *p = b; *p; p++) if (*p == '\n' || *p == '\t') *p = ' ';
    nfail_case++;
    if (nfail_case <= 3) wr(key, b);
    if (++total_fail > 3000 && !replay) { fprintf(vf, "CAP\n"); fflush(vf); me->done = 1; me->capped = 1; me->start = 0; _exit(0); }
}

/* ---- harness memory */
static void *mems[1 << 16]; static int nmem;
extern void *__real_malloc(size_t);
extern void *__real_calloc(size_t, size_t);
extern void *__real_realloc(void *, size_t);
extern void __real_free(void *);
void *mc_mem(size_t n)
{
    if (nmem >= 1 << 16) die("too much harness memory");
    void *p = __real_malloc(n ? n : 1); if (!p) die("no memory");
    return mems[nmem++] = p;
}
static void freemem(void) { while (nmem > 0) __real_free(mems[--nmem]); }

/* ---- allocation accounting */
static long live, nall, failat, nfailed;
#define HT (1 << 16)
static void *ht[HT];
static unsigned hp(void *p) { return (unsigned)((((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull) >> 48); }
static volatile int lk;
static void lock(void) { while (__sync_lock_test_and_set(&lk, 1)) ; }
static void unlock(void) { __sync_lock_release(&lk); }
static void hadd(void *p) { if (!p) return; lock(); if (live < HT / 2) { unsigned i = hp(p); while (ht[i]) i = (i + 1) % HT; ht[i] = p; live++; } unlock(); }
static int hdel(void *p)
{
    lock();
    unsigned i = hp(p);
    while (ht[i] && ht[i] != p) i = (i + 1) % HT;
    if (!ht[i]) { unlock(); return 0; }
    ht[i] = 0; live--;
    for (unsigned j = (i + 1) % HT; ht[j]; j = (j + 1) % HT) { void *q = ht[j]; ht[j] = 0; unsigned k = hp(q); while (ht[k]) k = (k + 1) % HT; ht[k] = q; }
    unlock();
    return 1;
}
static int inject(void)
{
    __sync_fetch_and_add(&nall, 1);
    if (failat > 0 && __sync_sub_and_fetch(&failat, 1) == 0) { nfailed++; errno = ENOMEM; return 1; }
    return 0;
}
void *mc_malloc(size_t n)
{
    if (inject()) return NULL;
    void *p = __real_malloc(n);
    if (p && mc_poison) memset(p, 0xff, n);
    hadd(p); return p;
}
void *mc_calloc(size_t a, size_t b) { if (inject()) return NULL; void *p = __real_calloc(a, b); hadd(p); return p; }
void *mc_realloc(void *o, size_t n)
{
    if (inject()) return NULL;
    if (o) hdel(o);
    void *p = __real_realloc(o, n); hadd(p); return p;
}
void mc_free(void *p) { if (p) hdel(p); __real_free(p); }
void mc_disown(void *p) { hdel(p); }     /* accounted as freed, the memory stays */
#ifndef MC_CONC
void *__wrap_malloc(size_t n) { return mc_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return mc_calloc(a, b); }
void *__wrap_realloc(void *o, size_t n) { return mc_realloc(o, n); }
void __wrap_free(void *p) { mc_free(p); }
#endif
long mc_live(void) { return live; }
long mc_allocs(void) { return nall; }
void mc_fail_alloc(long k) { failat = k; nfailed = 0; }
long mc_alloc_failed(void) { return nfailed; }

/* ---- guarded matrices */
static const uint64_t CAN = 0xfff7dead0badc0deull;   /* a NaN */
double mc_canary(void) { double d; memcpy(&d, &CAN, 8); return d; }
int mc_iscanary(double v) { return memcmp(&v, &CAN, 8) == 0; }
bool mc_biteq(double a, double b) { return memcmp(&a, &b, 8) == 0; }
armas_dense_t *gm_new(gm_t *g, int r, int c, int layout)
{
    int step = r, off = 0, rr = r;
    if (layout == LP) { step = r + 3; off = 3; }
    if (layout == LROW) { step = r + 2; off = 1; }
    if (step == 0) step = 1;
    long len = c > 0 && r > 0 ? off + (long)(c - 1) * step + rr : off;
    g->len = len; g->off = off;
    g->buf = mc_mem(sizeof(double) * (len ? len : 1)); g->snap = NULL;
    for (long i = 0; i < len; i++) memcpy(&g->buf[i], &CAN, 8);
    armas_make(&g->m, r, c, step, g->buf + off);
    return &g->m;
}
int mc_rnd(uint64_t *s) { *s = *s * 6364136223846793005ull + 1442695040888963407ull; return (int)(*s >> 33); }
void gm_ints(gm_t *g, int seed, int lo, int hi)
{
    uint64_t s = seed * 7919 + 17; mc_rnd(&s);
    for (int j = 0; j < g->m.cols; j++) for (int i = 0; i < g->m.rows; i++) {
        int v = lo + mc_rnd(&s) % (hi - lo + 1);
        G(g, i, j) = v;
    }
}
void gm_rand(gm_t *g, int seed)
{
    uint64_t s = seed * 104729 + 5; mc_rnd(&s);
    for (int j = 0; j < g->m.cols; j++) for (int i = 0; i < g->m.rows; i++) G(g, i, j) = 2.0 * (mc_rnd(&s) / 2147483648.0) - 1.0;
}
void gm_zero(gm_t *g) { for (int j = 0; j < g->m.cols; j++) for (int i = 0; i < g->m.rows; i++) G(g, i, j) = 0; }
void gm_copyfrom(gm_t *g, const gm_t *s) { for (int j = 0; j < g->m.cols; j++) for (int i = 0; i < g->m.rows; i++) G(g, i, j) = G(s, i, j); }
void gm_snap(gm_t *g)
{
    if (!g->snap) g->snap = mc_mem(sizeof(double) * (g->len ? g->len : 1));
    memcpy(g->snap, g->buf, sizeof(double) * g->len);
}
long gm_diff_any(gm_t *g) { for (long i = 0; i < g->len; i++) if (!mc_biteq(g->buf[i], g->snap[i])) return i; return -1; }
long gm_diff_outside(gm_t *g)
{
    for (long i = 0; i < g->len; i++) if (!mc_biteq(g->buf[i], g->snap[i])) {
        long k = i - g->off;
        if (k < 0) return i;
        long j = k / g->m.step, r = k % g->m.step;
        if (j >= g->m.cols || r >= g->m.rows) return i;
    }
    return -1;
}
int gm_same(gm_t *g, const char *what)
{
    long d = gm_diff_any(g);
    if (d < 0) return 1;
    mc_fail("operand-changed", "read-only operand %s (%dx%d step %d) changed at buffer index %ld: %g -> %g", what, g->m.rows, g->m.cols, g->m.step, d - g->off, g->snap[d], g->buf[d]);
    return 0;
}
int gm_guard(gm_t *g, const char *what)
{
    long d = gm_diff_outside(g);
    if (d < 0) return 1;
    mc_fail("outside-view", "write outside view of %s (%dx%d step %d) at buffer index %ld -> %g", what, g->m.rows, g->m.cols, g->m.step, d - g->off, g->buf[d]);
    return 0;
}

/* ---- driver */
static int next_path(void)
{
    plen = depth;
    while (plen > 0 && path[plen - 1] + 1 >= lim[plen - 1]) plen--;
    if (plen == 0) return 0;
    path[plen - 1]++;
    return 1;
}
static char *vname(const char *dir, int s) { static char b[512]; snprintf(b, sizeof b, "%s/v.%d", dir, s); return b; }
static void worker(int s, long skip, const char *dir)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    shard = s; me = &shm->w[s]; skip_to = skip;
    vf = fopen(vname(dir, s), "a");
    char e[512]; snprintf(e, sizeof e, "%s/err.%d", dir, s);
    int fd = open(e, O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 2); dup2(fd, 1);
    mc_setup();
    do {
        depth = 0;
        mc_body();
        end_case(); freemem();
        if ((index_now & 63) == 0 && now() - t0 > budget) { me->capped = 1; break; }
    } while (next_path());
    me->done = 1;
    fflush(0);
    _exit(0);
}
static int run_replay(const char *r, double limit, const char *dir, char *msg, size_t n)
{
    /* returns 0: passes, 1: violation, 2: crash, 3: hang */
    fflush(0);
    char vn[512]; snprintf(vn, sizeof vn, "%s/replay.v", dir); unlink(vn);
    char en[512]; snprintf(en, sizeof en, "%s/replay.err", dir);
    pid_t p = fork();
    if (!p) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int fd = open(en, O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(fd, 2);
        if (strcmp(dir, "/dev")) dup2(fd, 1);
        replay = 1; shard = MAXW - 1; me = &shm->w[MAXW - 1]; vf = fopen(vn, "w");
        char *c = strdup(r), *sv = 0; plen = 0;
        for (char *t = strtok_r(c, ",", &sv); t; t = strtok_r(0, ",", &sv)) path[plen++] = atoi(t);
        free(c); note[0] = 0; nfail_case = 0; depth = 0;
        mc_setup(); mc_body(); fflush(0);
        _exit(nfail_case ? 1 : 0);
    }
    double st = now(); int wst;
    for (;;) {
        pid_t q = waitpid(p, &wst, WNOHANG);
        if (q == p) break;
        if (now() - st > limit) { kill(p, SIGKILL); waitpid(p, &wst, 0); snprintf(msg, n, "no return within %.0f s", limit); return 3; }
        usleep(2000);
    }
    msg[0] = 0;
    if (WIFEXITED(wst) && WEXITSTATUS(wst) == 0) return 0;
    FILE *f;
    if (WIFEXITED(wst) && WEXITSTATUS(wst) == 1) {
        f = fopen(vn, "r"); if (f) { if (!fgets(msg, n, f)) msg[0] = 0; fclose(f); }
        return 1;
    }
    f = fopen(en, "r"); char ln[400]; size_t k = 0;
    if (f) { int c = 0; while (fgets(ln, sizeof ln, f) && c < 8) if (strstr(ln, "ERROR") || strstr(ln, "    #") || strstr(ln, "ssert") || strstr(ln, "mc:")) { c++; for (char *q = ln; *q; q++) if (*q == '\n' || *q == '\t') *q = ' '; k += snprintf(msg + k, k < n ? n - k : 0, "%s", ln); if (k >= n) break; } fclose(f); }
    if (!msg[0]) snprintf(msg, n, "died with status 0x%x", wst);
    return 2;
}
static void jstr(FILE *f, const char *s) { fputc('"', f); for (; *s; s++) { if (*s == '"' || *s == '\\') fprintf(f, "\\%c", *s); else if ((unsigned char)*s < 32) fputc(' ', f); else fputc(*s, f); } fputc('"', f); }

/* crash key: op-independent signature from the sanitizer report */
static void crashkey(const char *dir, int s, char *key, size_t n)
{
    char e[512]; snprintf(e, sizeof e, "%s/err.%d", dir, s);
    FILE *f = fopen(e, "r"); char ln[500]; snprintf(key, n, "crash"); int got = 0;
    if (!f) return;
    while (fgets(ln, sizeof ln, f)) {
        char *p = strstr(ln, "AddressSanitizer: ");
        if (p && !got) { char w[64] = ""; sscanf(p + 18, "%63s", w); snprintf(key, n, "crash:%s", w); got = 1; }
        p = strstr(ln, " in ");
        if (p && got == 1 && strstr(ln, "    #")) {
            char w[100] = ""; sscanf(p + 4, "%99s", w);
            if (strncmp(w, "__", 2) && strcmp(w, "memset") && strcmp(w, "memcpy") && !strstr(w, "interceptor")) { size_t k = strlen(key); snprintf(key + k, n - k, ":%s", w); got = 2; }
        }
        if (strstr(ln, "Assertion") && !got) { snprintf(key, n, "crash:assert"); got = 2; }
    }
    fclose(f);
}
int main(int argc, char **argv)
{
    const char *rep = 0, *dir = "/tmp", *out = 0;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--replay")) rep = argv[++i];
        else if (!strcmp(argv[i], "--dir")) dir = argv[++i];
        else if (!strcmp(argv[i], "--out")) out = argv[++i];
        else if (!strcmp(argv[i], "--shards")) nshards = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--budget")) budget = atof(argv[++i]);
        else if (!strcmp(argv[i], "--thorough")) mc_thorough++;
    }
    shm = mmap(0, sizeof *shm, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (shm == MAP_FAILED) die("mmap");
    t0 = now();
    if (rep) {
        char m[2000]; int r = run_replay(rep, 240, dir, m, sizeof m);
        printf("replay: %s %s\n", r == 0 ? "no violation" : r == 1 ? "VIOLATED" : r == 2 ? "CRASH" : "HANG", m);
        return r != 0;
    }
    pid_t pid[MAXW]; int nrestart = 0;
    char *vlist = 0; (void)vlist;
    for (int s = 0; s < nshards; s++) { unlink(vname(dir, s)); }
    for (int s = 0; s < nshards; s++) { pid_t p = fork(); if (!p) worker(s, 0, dir); pid[s] = p; }
    int alive = nshards;
    while (alive > 0) {
        int wst; pid_t p = waitpid(-1, &wst, WNOHANG);
        if (p > 0) {
            int s; for (s = 0; s < nshards && pid[s] != p; s++) ;
            if (s == nshards) continue;
            slot_t *w = &shm->w[s];
            if (w->done) { pid[s] = 0; alive--; continue; }
            if (w->abandon) { w->abandon = 0; long sk = w->index + 1; w->start = 0; pid_t q = fork(); if (!q) worker(s, sk, dir); pid[s] = q; continue; }
            /* crashed (or killed for a hang) */
            char key[200]; crashkey(dir, s, key, sizeof key);
            int hang = WIFSIGNALED(wst) && WTERMSIG(wst) == SIGKILL && w->limit == -1;
            FILE *f = fopen(vname(dir, s), "a");
            if (w->start == 0) { fprintf(stderr, "mc: worker %d died outside a case, status 0x%x\n", s, wst); fprintf(f, "harness-error\t\tworker died outside a case\tstatus 0x%x\n", wst); fclose(f); pid[s] = 0; alive--; w->capped = 1; continue; }
            fprintf(f, "%s\t", hang ? "hang" : key);
            for (int i = 0; i < w->plen; i++) fprintf(f, "%s%d", i ? "," : "", w->path[i]);
            fprintf(f, "\t[%s]\t%s\n", w->note, hang ? "no return within the time limit" : "process died"); fclose(f);
            if (++nrestart > 200) { w->capped = 1; pid[s] = 0; alive--; continue; }
            long sk = w->index + 1; w->start = 0;
            pid_t q = fork(); if (!q) worker(s, sk, dir); pid[s] = q;
            continue;
        }
        double t = now();
        for (int s = 0; s < nshards; s++) if (pid[s]) {
            slot_t *w = &shm->w[s]; double st = w->start;
            if (st != 0 && w->limit > 0 && t - st > w->limit) { w->limit = -1; kill(pid[s], SIGKILL); }
        }
        usleep(p < 0 ? 1000 : 3000);
    }
    long cases = 0, ops = 0, cmps = 0; int capped = 0; long outs = 0;
    for (int s = 0; s < nshards; s++) { slot_t *w = &shm->w[s]; cases += w->cases; ops += w->ops; cmps += w->cmps; capped |= w->capped; }
    for (unsigned i = 0; i < OUTBITS / 8; i++) outs += __builtin_popcount(shm->out[i]);
    double wall = now() - t0;
    FILE *o = out ? fopen(out, "w") : stdout;
    fprintf(o, "{\"harness\":"); jstr(o, mc_name);
    fprintf(o, ",\"cases\":%ld,\"enumerated\":%ld,\"ops\":%ld,\"cmps\":%ld,\"outcomes\":%ld,\"capped\":%s,\"wall\":%.2f,\"restarts\":%d,\"alphabet\":{", cases, (long)shm->w[0].enumerated, ops, cmps, outs, capped ? "true" : "false", wall, nrestart);
    for (int i = 0; i < shm->nlab; i++) { fprintf(o, "%s", i ? "," : ""); jstr(o, shm->labs[i]); fprintf(o, ":%d", shm->labmax[i]); }
    fprintf(o, "},\"samples\":[");
    int k = 0;
    for (int s = 0; s < nshards; s++) for (int i = 0; i < shm->w[s].nsamp; i++) if (k < 8) { fprintf(o, "%s", k++ ? "," : ""); jstr(o, shm->w[s].samp[i]); }
    fprintf(o, "],\"violations\":[");
    /* group by key; replay up to 3 of each key before reporting */
    struct { char key[200]; int n, conf; } ks[400]; int nk = 0, first = 1;
    for (int s = 0; s < nshards; s++) {
        FILE *f = fopen(vname(dir, s), "r"); if (!f) continue;
        char ln[4000];
        while (fgets(ln, sizeof ln, f)) {
            ln[strcspn(ln, "\n")] = 0;
            char *fld[4] = {ln, "", "", ""}; char *p = ln;
            for (int i = 1; i < 4 && p; i++) { p = strchr(p, '\t'); if (p) { *p++ = 0; fld[i] = p; } }
            if (!strcmp(fld[0], "CAP")) continue;
            int i; for (i = 0; i < nk && strcmp(ks[i].key, fld[0]); i++) ;
            if (i == nk) { if (nk == 400) continue; snprintf(ks[nk].key, 200, "%s", fld[0]); ks[nk].n = ks[nk].conf = 0; nk++; }
            ks[i].n++;
            if (ks[i].conf >= 3 || ks[i].n > 40) continue;
            char msg[2000]; int r = fld[1][0] ? run_replay(fld[1], !strcmp(fld[0], "hang") ? 240 : 120, dir, msg, sizeof msg) : 0;
            if (r) ks[i].conf++;
            fprintf(o, "%s{\"key\":", first ? "" : ","); first = 0; jstr(o, fld[0]);
            fprintf(o, ",\"choices\":"); jstr(o, fld[1]); fprintf(o, ",\"case\":"); jstr(o, fld[2]); fprintf(o, ",\"text\":"); jstr(o, fld[3]);
            fprintf(o, ",\"confirmed\":%s,\"replay\":", r ? "true" : "false"); jstr(o, msg); fprintf(o, "}");
        }
        fclose(f);
    }
    fprintf(o, "],\"keys\":{");
    for (int i = 0; i < nk; i++) { fprintf(o, "%s", i ? "," : ""); jstr(o, ks[i].key); fprintf(o, ":%d", ks[i].n); }
    fprintf(o, "}}\n");
    if (out) fclose(o);
    return 0;
}
