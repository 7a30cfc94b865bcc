#define _GNU_SOURCE
#include "mc.h"
#include "conc.h"
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <signal.h>

#define NT 16                   /* threads per execution */
#define STK (512 * 1024)
#define MAXP (1 << 15)

extern void *__real_memset(void *, int, size_t), *__real_memcpy(void *, const void *, size_t), *__real_memmove(void *, const void *, size_t);
#define memset __real_memset
#define memcpy __real_memcpy
extern int __real_pthread_detach(pthread_t);
extern int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
extern int __real_pthread_join(pthread_t, void **);

enum { RUN, LOCK, CWAIT, REACQ, JOIN, ONCE, SEMW, DONE };
typedef struct {
    int st, timed, timedout, joined, detached, spur;
    void *obj, *obj2;
    int jt;
    pthread_t real;
    void *(*fn)(void *); void *arg, *ret;
    uint32_t vc[NT];
    uint32_t endvc[NT];
} thr_t;
static thr_t T[NT];
static sem_t bat[NT];           /* the baton of each thread */
static int nthr, cur, active;
static __thread int self_id = -1;
static char *stacks;
/* path */
static int pth[MAXP], plim[MAXP]; static int pl, pd;
static cs_bound_t B; static int usedP, usedD, usedS, firstdev; static long npoint;
static long steps, idle; static int maxlive, failk, nfailcreate, ignore;
static int failed_now; static char fkey[100], ftext[600];
static cs_stat_t *ST;
static int incall;              /* inside an execution */
static uint32_t epoch;

void cs_ignore(int on) { ignore = on; }
int cs_failed(void) { return failed_now; }
int cs_max_live(void) { return maxlive; }
int cs_created(void) { return nthr - 1; }
void cs_fail_create(int k) { failk = k; nfailcreate = 0; }
int cs_create_failed(void) { return nfailcreate; }
int cs_live_threads(void) { int n = 0; for (int i = 1; i < nthr; i++) n += T[i].st != DONE; return n; }
int cs_unjoined(void) { int n = 0; for (int i = 1; i < nthr; i++) n += !T[i].joined && !T[i].detached; return n; }

static void schedstr(char *b, size_t n)
{
    size_t k = 0; b[0] = 0; int last = -1;
    for (int i = 0; i < pd; i++) if (pth[i]) last = i;
    for (int i = 0; i <= last && k < n - 16; i++) if (pth[i]) k += snprintf(b + k, n - k, "%d:%d/%d ", i, pth[i], plim[i]);
    if (last < 0) snprintf(b, n, "default schedule");
}
void cs_fail(const char *key, const char *fmt, ...)
{
    if (failed_now) return;
    failed_now = 1;
    snprintf(fkey, sizeof fkey, "%s", key);
    char s[300]; schedstr(s, sizeof s);
    va_list ap; va_start(ap, fmt); int k = vsnprintf(ftext, sizeof ftext, fmt, ap); va_end(ap);
    if (k > 0 && k < (int)sizeof ftext) snprintf(ftext + k, sizeof ftext - k, " | schedule %s", s);
}
static void stuck(const char *key, const char *why) __attribute__((noreturn));
static int child_fd = -1;
static void report(void) { mc_fail(fkey, "%s", ftext); }
static void stuck(const char *key, const char *why)
{
    static const char *nm[] = {"running", "waiting for a mutex", "waiting on a condition", "waiting for a mutex after wake-up", "joining", "waiting in once", "waiting on a semaphore", "finished"};
    char b[400]; size_t k = 0; b[0] = 0;
    for (int i = 0; i < nthr && k < sizeof b - 60; i++) k += snprintf(b + k, sizeof b - k, " T%d %s;", i, nm[T[i].st]);
    cs_fail(key, "%s:%s", why, b);
    if (child_fd >= 0) { dprintf(child_fd, "F%s\t%s\n", fkey, ftext); _exit(3); }
    report();
    mc_abandon();
    _exit(0);
}
/* ---- mutex / once state lives in side tables keyed by address */
typedef struct { void *a; int owner; uint32_t vc[NT]; int cnt; uint32_t tclk[NT], tpc[NT]; int dead, dthr; uint32_t dpc; } ob_t;
static ob_t obs[512]; static int nobs;
static ob_t *ob(void *a)
{
    for (int i = 0; i < nobs; i++) if (obs[i].a == a) return &obs[i];
    if (nobs == 512) { fprintf(stderr, "mc: too many sync objects\n"); _exit(97); }
    ob_t *o = &obs[nobs++]; memset(o, 0, sizeof *o); o->a = a; o->owner = -1; return o;
}
static void join_vc(uint32_t *d, const uint32_t *s) { for (int i = 0; i < NT; i++) if (s[i] > d[i]) d[i] = s[i]; }
static void rel_vc(uint32_t *d, int t) { join_vc(d, T[t].vc); T[t].vc[t]++; }

/* ---- choices inside an execution */
static int choose(int n)
{
    if (n <= 1) return 0;
    long pt = npoint++;
    if (usedD == 0 && pt % B.nparts != B.part) return 0;   /* some other case's subtree */
    if (pd >= MAXP) stuck("hang", "too many scheduling points");
    if (pd >= pl) { pth[pd] = 0; pl = pd + 1; }
    plim[pd] = n;
    return pth[pd++];
}
int cs_choose(int n)
{
    if (!incall || usedD >= B.deviate) return 0;
    int c = choose(n);
    if (c) usedD++;
    return c;
}
static int enabled(int t)
{
    switch (T[t].st) {
    case RUN: return 1;
    case LOCK: case REACQ: return ob(T[t].obj)->owner < 0;
    case JOIN: return T[T[t].jt].st == DONE;
    case ONCE: return ob(T[t].obj)->cnt != 1;
    default: return 0;
    }
}
/* pick the next thread to run; the current one is at a scheduling point (or finished) */
static int pick(int yield)
{
    int opt[NT * 2], spec[NT * 2], n = 0;
    int ce = T[cur].st != DONE && enabled(cur);
    if (++steps > 60000) stuck("hang", "no progress within 60000 scheduling points");
    if (ce && !yield) { opt[n] = cur; spec[n++] = 0; }
    for (int k = 1; k < nthr; k++) { int t = (cur + k) % nthr; if (enabled(t)) { opt[n] = t; spec[n++] = (ce && !yield) ? 1 : (n ? 2 : 0); } }
    if (ce && yield) { opt[n] = cur; spec[n++] = n ? 2 : 0; }
    int normal = n;
    /* condition waiters: a timed wait may time out, any wait may wake up spuriously */
    for (int k = 0; k < nthr; k++) {
        int t = (cur + k) % nthr;
        if (T[t].st != CWAIT || ob(T[t].obj2)->owner >= 0) continue;
        if (T[t].timed) { opt[n] = t; spec[n++] = normal ? 3 : 0; }
        else if (usedS < B.spurious) { opt[n] = t; spec[n++] = 4; }
    }
    if (normal == 0) {
        int tm = 0; for (int i = 0; i < n; i++) tm |= spec[i] == 0;
        if (!tm) stuck("deadlock", "no thread can run");
        if (++idle > 6 * nthr) stuck("hang", "threads only wake up by time-out and make no progress");
    }
    /* cost filter */
    int o2[NT * 2], s2[NT * 2], m = 0;
    for (int i = 0; i < n; i++) {
        int first = m == 0 && spec[i] != 4;
        int ok = first || (usedD < B.deviate && (spec[i] != 1 || usedP < B.preempt));
        if (spec[i] == 3 && m == 0) ok = 1;
        if (ok) { o2[m] = opt[i]; s2[m++] = spec[i]; }
    }
    if (m == 0) stuck("deadlock", "no thread can run");
    int c = choose(m);
    if (c) { usedD++; if (s2[c] == 1) usedP++; }
    int t = o2[c];
    if (T[t].st == CWAIT) {
        T[t].st = REACQ; T[t].obj = T[t].obj2; T[t].timedout = T[t].timed; T[t].spur = !T[t].timed;
        if (!T[t].timed) usedS++;
    }
    return t;
}
static void switch_to(int t, int me, int wait)
{
    cur = t;
    if (t == me) return;
    sem_post(&bat[t]);
    if (wait) while (sem_wait(&bat[me])) ;
}
static void sp2(int yield) { int me = cur; int t = pick(yield); switch_to(t, me, 1); }
static void sp(void) { sp2(0); }
static int on(void) { return active && self_id >= 0; }

/* ---- shadow memory */
#define CB 16
typedef struct { uintptr_t a; uint32_t ep; uint32_t wclk[2]; uint8_t wt[2], wat[2]; uint32_t wpc[2]; uint32_t rclk[2][NT]; uint32_t rpc[2][NT]; uint8_t rat[2]; uint8_t freed; } cell_t;
static cell_t *cells;

static void pcname(uint32_t pc, char *b, size_t n)
{
    char cmd[200]; snprintf(cmd, sizeof cmd, "addr2line -s -f -e /proc/%d/exe 0x%x 2>/dev/null", getpid(), pc);
    b[0] = 0; FILE *f = popen(cmd, "r"); if (!f) return;
    char l1[120] = "", l2[120] = ""; if (fgets(l1, sizeof l1, f)) l1[strcspn(l1, "\n")] = 0; if (fgets(l2, sizeof l2, f)) l2[strcspn(l2, "\n ")] = 0;
    pclose(f); snprintf(b, n, "%s(%s)", l1, l2);
}
static uint32_t pcof(void *ra) { return (uint32_t)((uintptr_t)ra - 1); }      /* linked without PIE */
static void race(const char *what, int t1, uint32_t pc1, int t2, uint32_t pc2)
{
    if (failed_now) return;
    char a[240], b[240]; int s = active; active = 0;
    pcname(pc1, a, sizeof a); pcname(pc2, b, sizeof b); active = s;
    char key[100]; char f1[40]; snprintf(f1, sizeof f1, "%.*s", (int)strcspn(a, "("), a);
    snprintf(key, sizeof key, "%s:%s", what, f1);
    cs_fail(key, "%s: thread %d at %s and thread %d at %s", what, t1, a, t2, b);
}
static cell_t *cell(uintptr_t a)
{
    uint32_t h = (uint32_t)((a * 0x9E3779B97F4A7C15ull) >> (64 - CB));
    for (int k = 0; k < (1 << CB); k++, h = (h + 1) & ((1 << CB) - 1)) {
        cell_t *c = &cells[h];
        if (c->ep != epoch) { memset(c, 0, sizeof *c); c->ep = epoch; c->a = a; return c; }
        if (c->a == a) return c;
    }
    fprintf(stderr, "mc: shadow memory full\n"); _exit(97);
}
static long nacc;
static void acc1(uintptr_t a, int half, int w, int at, uint32_t pc)
{
    cell_t *c = cell(a); int t = cur; thr_t *th = &T[t];
    if (c->freed) { race("use-after-free", t, pc, c->wt[0], c->wpc[0]); return; }
    if (c->wclk[half] > th->vc[c->wt[half]] && c->wt[half] != t && !(at && c->wat[half])) race(w ? "race-write-write" : "race-write-read", t, pc, c->wt[half], c->wpc[half]);
    if (w) {
        for (int i = 0; i < nthr; i++) if (i != t && c->rclk[half][i] > th->vc[i] && !(at && c->rat[half])) race("race-read-write", t, pc, i, c->rpc[half][i]);
        c->wclk[half] = th->vc[t]; c->wt[half] = t; c->wat[half] = at; c->wpc[half] = pc;
        if (!at) c->rat[half] = 0;
    } else { c->rclk[half][t] = th->vc[t]; c->rpc[half][t] = pc; c->rat[half] = at; }
}
static void acc(void *p, long n, int w, int at, void *ra)
{
    if (!on() || ignore || failed_now) return;
    uint32_t pc = pcof(ra);
    if ((nacc += n) > 400000000L) stuck("hang", "a thread runs without end");
    uintptr_t a = (uintptr_t)p, e = a + n;
    for (uintptr_t x = a & ~3ul; x < e; x += 4) acc1(x >> 3, (x >> 2) & 1, w, at, pc);
}
/* freed heap blocks: any later access is a use after free; an unordered earlier one a race */
static void heap_free(void *p, size_t n, void *ra)
{
    if (!on() || ignore) return;
    uint32_t pc = pcof(ra);
    if (n > 65536) n = 65536;
    for (uintptr_t x = (uintptr_t)p & ~7ul; x < (uintptr_t)p + n; x += 8) {
        for (int h = 0; h < 2; h++) acc1(x >> 3, h, 1, 0, pc);
        cell_t *c = cell(x >> 3); c->freed = 1; c->wt[0] = cur; c->wpc[0] = pc;
    }
}
static void heap_new(void *p, size_t n)
{
    if (!on()) return;
    if (n > 65536) n = 65536;
    for (uintptr_t x = (uintptr_t)p & ~7ul; x < (uintptr_t)p + n; x += 8) { cell_t *c = cell(x >> 3); uintptr_t a = c->a; memset(c, 0, sizeof *c); c->a = a; c->ep = epoch; }
}
/* ---- allocation: mc.c accounts; freed blocks are kept until the execution is over */
extern void *mc_malloc(size_t), *mc_calloc(size_t, size_t), *mc_realloc(void *, size_t); extern void mc_free(void *); extern void mc_disown(void *);
extern size_t malloc_usable_size(void *);
extern void __real_free(void *);
static void *quar[4096]; static int nquar;
void *__wrap_malloc(size_t n) { void *p = mc_malloc(n); if (p) heap_new(p, n); return p; }
void *__wrap_calloc(size_t a, size_t b) { void *p = mc_calloc(a, b); if (p) heap_new(p, a * b); return p; }
void __wrap_free(void *p)
{
    if (p && on() && nquar < 4096) { heap_free(p, malloc_usable_size(p), __builtin_return_address(0)); for (int i = 0; i < nquar; i++) if (quar[i] == p) { cs_fail("double-free", "block freed twice"); return; } mc_disown(p); quar[nquar++] = p; return; }
    mc_free(p);
}
void *__wrap_realloc(void *o, size_t n)
{
    if (!on()) return mc_realloc(o, n);
    void *p = __wrap_malloc(n); if (!p) return NULL;
    if (o) { size_t k = malloc_usable_size(o); memcpy(p, o, k < n ? k : n); __wrap_free(o); }
    return p;
}
/* ---- threads */
static void finish(void)
{
    int me = cur;
    T[me].vc[me]++; memcpy(T[me].endvc, T[me].vc, sizeof T[me].vc);
    T[me].st = DONE; idle = 0;
    int t = pick(0);
    self_id = -1;
    cur = t; sem_post(&bat[t]);
}
/* operating system threads are reused by later executions; a thread which leaves per-thread
 * memory behind fails the execution (leak), which ends the exploration */
static pthread_t pool[NT]; static int pooled[NT];
static void *tramp(void *a)
{
    int id = (int)(intptr_t)a;
    for (;;) {
        while (sem_wait(&bat[id])) ;
        self_id = id;
        T[id].ret = T[id].fn(T[id].arg);
        finish();
    }
    return NULL;
}
int __wrap_pthread_create(pthread_t *tid, const pthread_attr_t *at, void *(*fn)(void *), void *arg)
{
    if (!on()) return __real_pthread_create(tid, at, fn, arg);
    if (failk > 0 && --failk == 0) { nfailcreate++; return EAGAIN; }
    if (nthr >= NT) stuck("too-many-threads", "more threads than any configuration allows");
    int id = nthr++; thr_t *th = &T[id];
    memset(th, 0, sizeof *th);
    th->fn = fn; th->arg = arg; th->st = RUN; idle = 0;
    int dt = 0; if (at) pthread_attr_getdetachstate(at, &dt); th->detached = dt == PTHREAD_CREATE_DETACHED;
    join_vc(th->vc, T[cur].vc); th->vc[id] = 1; T[cur].vc[cur]++;
    if (!pooled[id]) {
        pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, stacks + (size_t)id * STK, STK);
        if (__real_pthread_create(&pool[id], &a, tramp, (void *)(intptr_t)id)) { fprintf(stderr, "mc: cannot create a thread\n"); _exit(97); }
        pthread_attr_destroy(&a); pooled[id] = 1;
    }
    th->real = pool[id];
    acc(tid, sizeof *tid, 1, 0, __builtin_return_address(0));
    *tid = th->real;
    int lv = cs_live_threads(); if (lv > maxlive) maxlive = lv;
    return 0;
}
static int byreal(pthread_t r) { for (int i = nthr - 1; i > 0; i--) if (T[i].real == r && !T[i].joined) return i; return -1; }
int __wrap_pthread_join(pthread_t r, void **ret)
{
    if (!on()) return __real_pthread_join(r, ret);
    int t = byreal(r);
    if (t < 0) { cs_fail("bad-join", "join of a thread that does not exist or has been joined"); return ESRCH; }
    T[cur].st = JOIN; T[cur].jt = t; sp();
    T[cur].st = RUN; T[t].joined = 1;
    join_vc(T[cur].vc, T[t].endvc);
    if (ret) *ret = T[t].ret;
    return 0;
}
int __wrap_pthread_detach(pthread_t r) { if (!on()) return __real_pthread_detach(r); int t = byreal(r); if (t > 0) T[t].detached = 1; return 0; }
int __wrap_pthread_setaffinity_np(pthread_t r, size_t n, const void *s) { (void)r; (void)n; (void)s; return 0; }
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);
/* mutex words are marked as accessed, so that use of a dead mutex shows; ordering comes from the model */
static void touch(void *p, void *ra)
{
    if (ignore || failed_now) return;
    cell_t *c = cell((uintptr_t)p >> 3); if (c->freed) race("use-after-free", cur, pcof(ra), c->wt[0], c->wpc[0]);
    ob_t *o = ob(p);
    if (o->dead) race("use-after-return", cur, pcof(ra), o->dthr, o->dpc);
    o->tclk[cur] = T[cur].vc[cur]; o->tpc[cur] = pcof(ra);
}
/* a function returns: mutexes and conditions in its frame cease to exist; every use of them must be ordered before */
static void frame_end(uintptr_t lo, uintptr_t hi, void *ra)
{
    for (int k = 0; k < nobs; k++) {
        ob_t *o = &obs[k]; uintptr_t a = (uintptr_t)o->a;
        if (a < lo || a >= hi || o->dead) continue;
        for (int i = 0; i < nthr; i++) if (i != cur && o->tclk[i] > T[cur].vc[i]) race("use-after-return", i, o->tpc[i], cur, pcof(ra));
        o->dead = 1; o->dthr = cur; o->dpc = pcof(ra);
    }
}
static void reborn(void *p) { ob_t *o = ob(p); o->dead = 0; memset(o->tclk, 0, sizeof o->tclk); }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a)
{
    if (!on()) { extern int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *); return __real_pthread_mutex_init(m, a); }
    ob_t *o = ob(m); o->owner = -1; memset(o->vc, 0, sizeof o->vc); reborn(m); memset(m, 0, sizeof *m); return 0;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { (void)m; return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    if (!on()) return __real_pthread_mutex_lock(m);
    touch(m, __builtin_return_address(0));
    if (ob(m)->owner == cur) stuck("deadlock", "a thread locks a mutex it holds");
    T[cur].st = LOCK; T[cur].obj = m; sp(); T[cur].st = RUN;
    touch(m, __builtin_return_address(0));
    ob_t *o = ob(m); o->owner = cur; join_vc(T[cur].vc, o->vc); return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m)
{
    if (!on()) { extern int __real_pthread_mutex_trylock(pthread_mutex_t *); return __real_pthread_mutex_trylock(m); }
    touch(m, __builtin_return_address(0)); sp();
    ob_t *o = ob(m); if (o->owner >= 0) return EBUSY;
    o->owner = cur; join_vc(T[cur].vc, o->vc); return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m)
{
    if (!on()) return __real_pthread_mutex_unlock(m);
    touch(m, __builtin_return_address(0));
    ob_t *o = ob(m); if (o->owner != cur) { cs_fail("bad-unlock", "unlock of a mutex the thread does not hold"); return EPERM; }
    o->owner = -1; rel_vc(o->vc, cur); return 0;
}
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void)a; if (on()) reborn(c); memset(c, 0, sizeof *c); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { (void)c; return 0; }
static int cwait(pthread_cond_t *c, pthread_mutex_t *m, int timed, void *ra)
{
    touch(c, ra);
    ob_t *o = ob(m); if (o->owner != cur) { cs_fail("bad-wait", "wait without holding the mutex"); return EPERM; }
    o->owner = -1; rel_vc(o->vc, cur);
    thr_t *t = &T[cur]; t->st = CWAIT; t->obj = c; t->obj2 = m; t->timed = timed; t->timedout = 0; t->spur = 0;
    sp();
    t = &T[cur]; t->st = RUN; touch(m, ra);
    o = ob(m); o->owner = cur; join_vc(t->vc, o->vc);
    return t->timedout ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!on()) return 0; return cwait(c, m, 0, __builtin_return_address(0)); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { (void)ts; if (!on()) return ETIMEDOUT; return cwait(c, m, 1, __builtin_return_address(0)); }
static void wake(int t) { T[t].st = REACQ; T[t].obj = T[t].obj2; T[t].timedout = 0; idle = 0; }
int __wrap_pthread_cond_signal(pthread_cond_t *c)
{
    if (!on()) return 0;
    touch(c, __builtin_return_address(0));
    int w[NT], n = 0;
    for (int i = 0; i < nthr; i++) if (T[i].st == CWAIT && T[i].obj == c) w[n++] = i;
    if (n) wake(w[cs_choose(n)]);
    return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c)
{
    if (!on()) return 0;
    touch(c, __builtin_return_address(0));
    for (int i = 0; i < nthr; i++) if (T[i].st == CWAIT && T[i].obj == c) wake(i);
    return 0;
}
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void))
{
    extern int __real_pthread_once(pthread_once_t *, void (*)(void));
    static void *done[64]; static int ndone;     /* completed before the exploration */
    if (!on()) { int r = __real_pthread_once(o, f), i = 0; while (i < ndone && done[i] != o) i++; if (i == ndone && i < 64) done[ndone++] = o; return r; }
    for (int i = 0; i < ndone; i++) if (done[i] == o) return 0;
    ob_t *b = ob(o);
    if (b->cnt == 2) { join_vc(T[cur].vc, b->vc); return 0; }     /* a completed one never changes: commutes with everything */
    T[cur].st = ONCE; T[cur].obj = o; sp(); T[cur].st = RUN;
    b = ob(o);
    if (b->cnt == 0) {
        b->cnt = 1; f(); b = ob(o); b->cnt = 2; rel_vc(b->vc, cur);
    } else join_vc(T[cur].vc, b->vc);
    return 0;
}
extern int __real_usleep(unsigned), __real_nanosleep(const struct timespec *, struct timespec *);
int __wrap_sched_yield(void) { if (on()) sp2(1); return 0; }
int __wrap_usleep(unsigned u) { if (!on()) return __real_usleep(u); sp2(1); return 0; }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { if (!on()) return __real_nanosleep(a, b); sp2(1); return 0; }
void __wrap___assert_fail(const char *e, const char *f, unsigned l, const char *fn)
{
    if (!on()) { fprintf(stderr, "Assertion %s failed %s:%u\n", e, f, l); abort(); }
    char w[300]; snprintf(w, sizeof w, "assertion %s failed in %s (%s:%u)", e, fn, strrchr(f, '/') ? strrchr(f, '/') + 1 : f, l);
    stuck("assertion", w);
}
static long rnd;
long __wrap_lrand48(void) { if (!on()) return 0; rnd++; return rnd + cs_choose(3); }

/* ---- compiler instrumentation */
#define RA __builtin_return_address(0)
void *__wrap_memset(void *d, int c, size_t n) { acc(d, n, 1, 0, RA); return __real_memset(d, c, n); }
void *__wrap_memcpy(void *d, const void *s, size_t n) { acc((void *)s, n, 0, 0, RA); acc(d, n, 1, 0, RA); return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { acc((void *)s, n, 0, 0, RA); acc(d, n, 1, 0, RA); return __real_memmove(d, s, n); }
void cs_read(const void *p, long n) { acc((void *)p, n, 0, 0, RA); }
void cs_write(void *p, long n) { acc(p, n, 1, 0, RA); }
char *__wrap_strsep(char **p, const char *d)
{
    extern char *__real_strsep(char **, const char *);
    acc(p, sizeof *p, 1, 0, RA);
    char *o = *p, *r = __real_strsep(p, d);
    if (o) acc(o, *p ? *p - o : 1, *p != NULL, 0, RA);
    return r;
}
#define RW(n) void __tsan_read##n(void *p) { acc(p, n, 0, 0, RA); } void __tsan_write##n(void *p) { acc(p, n, 1, 0, RA); } \
    void __tsan_unaligned_read##n(void *p) { acc(p, n, 0, 0, RA); } void __tsan_unaligned_write##n(void *p) { acc(p, n, 1, 0, RA); } \
    void __tsan_volatile_read##n(void *p) { acc(p, n, 0, 0, RA); } void __tsan_volatile_write##n(void *p) { acc(p, n, 1, 0, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, long n) { acc(p, n, 0, 0, RA); }
void __tsan_write_range(void *p, long n) { acc(p, n, 1, 0, RA); }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void)
{
    if (on() && !ignore && !failed_now) frame_end((uintptr_t)__builtin_frame_address(0) + 16, (uintptr_t)*(void **)__builtin_frame_address(0) + 16, RA);
}
void __tsan_vptr_update(void **p, void *v) { (void)p; (void)v; }
/* atomics: scheduling points, sequentially consistent, ordering edges unless relaxed */
static void apre(void *p, long n, int w, int mo, void *ra)
{
    (void)mo;
    if (!on()) return;
    sp(); acc(p, n, w, 1, ra);
    if (mo != __ATOMIC_RELAXED) { ob_t *o = ob(p); join_vc(T[cur].vc, o->vc); if (w) rel_vc(o->vc, cur); }
    if (w) idle = 0;
}
#define AT(b, ty) \
ty __tsan_atomic##b##_load(volatile ty *p, int mo) { apre((void *)p, b / 8, 0, mo, RA); return *p; } \
void __tsan_atomic##b##_store(volatile ty *p, ty v, int mo) { apre((void *)p, b / 8, 1, mo, RA); *p = v; } \
ty __tsan_atomic##b##_exchange(volatile ty *p, ty v, int mo) { apre((void *)p, b / 8, 1, mo, RA); ty o = *p; *p = v; return o; } \
ty __tsan_atomic##b##_fetch_add(volatile ty *p, ty v, int mo) { apre((void *)p, b / 8, 1, mo, RA); ty o = *p; *p = o + v; return o; } \
ty __tsan_atomic##b##_fetch_sub(volatile ty *p, ty v, int mo) { apre((void *)p, b / 8, 1, mo, RA); ty o = *p; *p = o - v; return o; } \
ty __tsan_atomic##b##_fetch_and(volatile ty *p, ty v, int mo) { apre((void *)p, b / 8, 1, mo, RA); ty o = *p; *p = o & v; return o; } \
ty __tsan_atomic##b##_fetch_or(volatile ty *p, ty v, int mo) { apre((void *)p, b / 8, 1, mo, RA); ty o = *p; *p = o | v; return o; } \
ty __tsan_atomic##b##_fetch_xor(volatile ty *p, ty v, int mo) { apre((void *)p, b / 8, 1, mo, RA); ty o = *p; *p = o ^ v; return o; } \
ty __tsan_atomic##b##_fetch_nand(volatile ty *p, ty v, int mo) { apre((void *)p, b / 8, 1, mo, RA); ty o = *p; *p = ~(o & v); return o; } \
int __tsan_atomic##b##_compare_exchange_strong(volatile ty *p, ty *e, ty v, int mo, int fo) { (void)fo; apre((void *)p, b / 8, 1, mo, RA); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
int __tsan_atomic##b##_compare_exchange_weak(volatile ty *p, ty *e, ty v, int mo, int fo) { (void)fo; apre((void *)p, b / 8, 1, mo, RA); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
ty __tsan_atomic##b##_compare_exchange_val(volatile ty *p, ty e, ty v, int mo, int fo) { (void)fo; apre((void *)p, b / 8, 1, mo, RA); ty o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { (void)mo; if (on()) sp(); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* ---- exploration */
static int next(void)
{
    pl = pd;
    while (pl > 0 && pth[pl - 1] + 1 >= plim[pl - 1]) pl--;
    if (!pl) return 0;
    pth[pl - 1]++; return 1;
}
static void reset(void)
{
    epoch++; nthr = 1; cur = 0; nobs = 0; pd = 0; usedP = usedD = usedS = 0; npoint = 0; steps = idle = 0; maxlive = 0; failk = 0; nfailcreate = 0; ignore = 0; failed_now = 0; nacc = 0; rnd = 0; firstdev = 0;
    static int once; if (!once) { once = 1; for (int i = 0; i < NT; i++) sem_init(&bat[i], 0, 0); }
    memset(&T[0], 0, sizeof T[0]); T[0].vc[0] = 1; T[0].st = RUN;
}
static void execute(void (*body)(void *), void *arg)
{
    reset();
    self_id = 0; active = 1; incall = 1;
    body(arg);
    if (!failed_now && cs_live_threads()) cs_fail("threads-left", "%d threads are still alive at the end", cs_live_threads());
    if (!failed_now && cs_unjoined()) cs_fail("not-joined", "%d threads were neither joined nor detached", cs_unjoined());
    active = 0; incall = 0; self_id = -1;
    for (int i = 0; i < nquar; i++) __real_free(quar[i]);
    nquar = 0;
}
void cs_explore(const cs_bound_t *b, void (*body)(void *), void *arg, cs_stat_t *st)
{
    static cs_stat_t dummy; ST = st ? st : &dummy; memset(ST, 0, sizeof *ST);
    B = *b; if (B.nparts < 1) B.nparts = 1;
    if (!cells) {
        cells = mmap(0, sizeof(cell_t) << CB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        stacks = mmap(0, (size_t)STK * NT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    }
    cpu_set_t all; static int pinned;
    if (!pinned && sched_getaffinity(0, sizeof all, &all) == 0) {   /* hand-over between threads is faster on one CPU */
        int n = CPU_COUNT(&all), k = n ? mc_shard() % n : 0;
        for (int c = 0; c < CPU_SETSIZE; c++) if (CPU_ISSET(c, &all) && k-- == 0) { cpu_set_t one; CPU_ZERO(&one); CPU_SET(c, &one); sched_setaffinity(0, sizeof one, &one); break; }
        pinned = 1;
    }
    pl = 0;
    /* executions in processes of their own are started by helper processes that are replaced now and
     * then: a long-lived parent of many thousands of them was seen to hold on to their memory */
    typedef struct { int pth[sizeof pth / sizeof *pth], plim[sizeof plim / sizeof *plim], pl, pd, nthr, maxlive, failed, done; cs_stat_t st; char fkey[sizeof fkey], ftext[sizeof ftext]; } hs_t;
    static hs_t *hs; int helper = 0;
    if (B.fork_each) {
        if (!hs) hs = mmap(0, sizeof *hs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        memset(hs, 0, sizeof *hs);
        for (;;) {
            hs->done = 2; fflush(0); pid_t p = fork();
            if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); helper = 1; memcpy(pth, hs->pth, sizeof pth); memcpy(plim, hs->plim, sizeof plim); pl = hs->pl; *ST = hs->st; break; }
            int w; while (waitpid(p, &w, 0) < 0 && errno == EINTR);
            memcpy(pth, hs->pth, sizeof pth); memcpy(plim, hs->plim, sizeof plim); pl = hs->pl; pd = hs->pd; nthr = hs->nthr; *ST = hs->st; failed_now = hs->failed; memcpy(fkey, hs->fkey, sizeof fkey); memcpy(ftext, hs->ftext, sizeof ftext);
            if (hs->done == 2) { fprintf(stderr, "mc: helper process died (%d)\n", w); _exit(97); }
            if (hs->done == 1) { if (failed_now) report(); if (getenv("CS_STAT")) fprintf(stderr, "execs %ld points %ld\n", ST->execs, ST->points); return; }
        }
    }
    long batch = 0; int done = 1;
    do {
        if (!B.fork_each) execute(body, arg);
        else {
            int fd[2]; if (pipe(fd)) _exit(97);
            fflush(0);
            pid_t p = fork();
            if (!p) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                close(fd[0]); child_fd = fd[1]; memset(pooled, 0, sizeof pooled);
                execute(body, arg);
                if (failed_now) dprintf(fd[1], "F%s\t%s\n", fkey, ftext);
                dprintf(fd[1], "P%d %d %ld\n", pd, nthr - 1, npoint);
                int w = 0; while (w < pd * (int)sizeof(int)) { int k = write(fd[1], (char *)plim + w, pd * sizeof(int) - w); if (k <= 0) break; w += k; }
                _exit(0);
            }
            close(fd[1]); FILE *f = fdopen(fd[0], "r"); char ln[800]; failed_now = 0; pd = 0;
            while (fgets(ln, sizeof ln, f)) {
                if (ln[0] == 'F') { char *t = strchr(ln, '\t'); if (t) { *t = 0; snprintf(fkey, sizeof fkey, "%s", ln + 1); snprintf(ftext, sizeof ftext, "%s", t + 1); } failed_now = 1; }
                if (ln[0] == 'P') {
                    int n = 0, nt = 0; long np = 0; sscanf(ln + 1, "%d %d %ld", &n, &nt, &np);
                    for (int i = pl; i < n; i++) pth[i] = 0;
                    if (fread(plim, sizeof(int), n, f) != (size_t)n) failed_now = 0;
                    pd = n; pl = n; nthr = nt + 1; npoint = np; break;
                }
            }
            fclose(f); int wst; waitpid(p, &wst, 0);
            if (!failed_now && (!WIFEXITED(wst) || WEXITSTATUS(wst) != 0)) { failed_now = 1; snprintf(fkey, sizeof fkey, "crash"); char s[200]; pd = pl; schedstr(s, sizeof s); snprintf(ftext, sizeof ftext, "process died, status 0x%x | schedule %s", wst, s); }
        }
        ST->execs++; ST->points += npoint; if (npoint > ST->maxdepth) ST->maxdepth = npoint; if (nthr - 1 > ST->threads) ST->threads = nthr - 1;
        if (maxlive > ST->maxlive) ST->maxlive = maxlive;
        if (failed_now) { if (helper) break; report(); if (!B.fork_each && cs_live_threads()) mc_abandon(); break; }
        if (ST->execs >= B.maxexec || ((ST->execs & 255) == 0 && mc_overbudget())) { ST->capped = 1; break; }
        if (helper && ++batch >= 1000) { done = !next(); break; }
    } while (next());
    if (helper) {
        memcpy(hs->pth, pth, sizeof pth); memcpy(hs->plim, plim, sizeof plim); hs->pl = pl; hs->pd = pd; hs->nthr = nthr; hs->st = *ST; hs->failed = failed_now; memcpy(hs->fkey, fkey, sizeof fkey); memcpy(hs->ftext, ftext, sizeof ftext);
        hs->done = done; _exit(0);
    }
    if (getenv("CS_STAT")) fprintf(stderr, "execs %ld points %ld maxdepth %ld threads %ld maxlive %ld capped %d\n", ST->execs, ST->points, ST->maxdepth, ST->threads, ST->maxlive, ST->capped);
}
