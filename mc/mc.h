/* Bounded exhaustive exploration framework: a harness body makes choices with mc_choose(); the
 * framework runs the body once for every choice vector (depth-first), spread over several worker
 * processes, and records violations, crashes and hangs with the choice vector that caused them. */
#ifndef MC_H
#define MC_H 1
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <stdbool.h>
#include <math.h>

/* ---- exploration ------------------------------------------------------------------------- */
int  mc_choose(const char *label, int n);                    /* 0..n-1 */
int  mc_pickv(const char *label, const int *vals, int n);    /* one of vals[] */
double mc_pickd(const char *label, const double *vals, int n);
#define MC_PICK(label, ...)  ({ static const int v_[] = {__VA_ARGS__}; mc_pickv(label, v_, (int)(sizeof v_/sizeof v_[0])); })
#define MC_PICKD(label, ...) ({ static const double v_[] = {__VA_ARGS__}; mc_pickd(label, v_, (int)(sizeof v_/sizeof v_[0])); })
int  mc_range(const char *label, int lo, int hi);            /* lo..hi inclusive */
bool mc_begin(void);        /* all choices made: true if this worker has to run the case */
extern int mc_thorough;     /* tier */
#define mc_sel(q, t, d) (mc_thorough > 1 ? (d) : mc_thorough ? (t) : (q)) /* bound for level 0, 1, 2 */
void mc_fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void mc_note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   /* description of the case */
int  mc_failed(void);       /* number of failures recorded in this case */
void mc_ops(int n);         /* implementation calls made (transitions) */
void mc_cmp(int n);         /* comparisons with the reference model made */
void mc_outcome(uint64_t h);/* digest of an observed outcome, for counting distinct ones */
void mc_case_timeout(double s);
void mc_abandon(void);      /* end this process (stuck threads ...), go on with the next case */
int  mc_shard(void);
int  mc_overbudget(void);   /* the time for this run is used up */
void mc_capped(void);       /* the case was not explored to the end */
void *mc_mem(size_t n);     /* harness memory, freed at the end of the case (not counted as live) */
uint64_t mc_hash(const void *p, size_t n, uint64_t h);
/* to be provided by the harness */
extern const char *mc_name;
void mc_body(void);
void mc_setup(void);        /* once per worker process */

/* ---- environment: allocation accounting and fault injection (link with --wrap) -------------- */
long mc_live(void);                     /* live allocations */
long mc_allocs(void);                   /* allocations so far */
void mc_fail_alloc(long k);             /* fail the k-th allocation from now (1-based), 0: none */
long mc_alloc_failed(void);             /* how many allocations have been failed since */
extern int mc_poison;                   /* fill fresh malloc memory with NaN patterns */

/* ---- guarded matrices ---------------------------------------------------------------------- */
#include "dtype.h"
#include "dlpack.h"
#include "matrix.h"
typedef struct { armas_dense_t m; double *buf, *snap; long len, off; } gm_t;
enum { LT = 0 /*tight*/, LP = 1 /*padded, offset view*/, LROW = 2 /* row vector with stride (c x 1 -> 1 x c handled by caller) */ };
armas_dense_t *gm_new(gm_t *g, int r, int c, int layout);   /* filled with canary inside and outside */
void gm_ints(gm_t *g, int seed, int lo, int hi);            /* deterministic integers */
void gm_rand(gm_t *g, int seed);                            /* deterministic (-1,1) */
void gm_zero(gm_t *g);
void gm_copyfrom(gm_t *g, const gm_t *s);
void gm_snap(gm_t *g);                                      /* remember whole buffer */
long gm_diff_outside(gm_t *g);  /* first index outside the view which changed since snap, or -1 */
long gm_diff_any(gm_t *g);      /* first index anywhere which changed since snap, or -1 */
int  gm_same(gm_t *g, const char *what);     /* mc_fail("operand-changed") if changed */
int  gm_guard(gm_t *g, const char *what);    /* mc_fail("outside-view") if changed outside view */
#define G(g,i,j) ((g)->m.elems[(long)(j)*(g)->m.step + (i)])
#define S(g,i,j) ((g)->snap[(g)->off + (long)(j)*(g)->m.step + (i)])  /* snapshot element */
double mc_canary(void);
int  mc_iscanary(double v);
bool mc_biteq(double a, double b);
static inline bool mc_eq(double a, double b) { return a == b; }
int mc_rnd(uint64_t *s);   /* deterministic generator */
#define ITEM(a) (int)(sizeof(a)/sizeof((a)[0]))
#endif
