/* Controlled scheduler: explores the thread interleavings of the code under test, compiled with
 * -fsanitize=thread against this runtime.  See DESIGN.md. */
#ifndef CONC_H
#define CONC_H 1
#include <pthread.h>
typedef struct {
    int preempt;     /* preemptive switches allowed per execution */
    int deviate;     /* deviations from the default scheduler of any kind allowed per execution */
    int spurious;    /* spurious condition wake-ups allowed per execution */
    int nparts, part;/* this case explores the schedules whose first deviation is at a point = part mod nparts */
    long maxexec;    /* cap on executions */
    int fork_each;   /* every execution in a process of its own (one-time initialisation) */
} cs_bound_t;
typedef struct { long execs, points, maxdepth, threads, maxlive; int capped; } cs_stat_t;
/* runs body() once for every schedule within the bounds; body returns nothing, reports by cs_fail */
void cs_explore(const cs_bound_t *b, void (*body)(void *), void *arg, cs_stat_t *st);
void cs_fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
int  cs_failed(void);
int  cs_choose(int n);                   /* explicit choice, costs one deviation unless 0 */
int  cs_live_threads(void);              /* threads created and not finished (main excluded) */
int  cs_unjoined(void);                  /* threads created, not joined and not detached */
int  cs_max_live(void);                  /* highest number of simultaneously live created threads */
int  cs_created(void);
void cs_fail_create(int k);              /* fail the k-th pthread_create from now on, 0: none */
int  cs_create_failed(void);
void cs_ignore(int on);                  /* do not record accesses (harness comparing results) */
void cs_read(const void *p, long n);     /* the harness looks at / changes shared data */
void cs_write(void *p, long n);
#endif
