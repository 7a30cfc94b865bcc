/* blocking / cache configurations shared by harnesses */
#ifndef CFG_H
#define CFG_H
typedef struct { int mb, nb, kb, lb, b1, b2; long cmem, l1; int fixed; } cfg_t;
static const cfg_t CFG_DEFAULT = {64, 64, 160, 64, 1024, 256, 256 * 1024, 32 * 1024, 0};
static inline void cfg_set(const cfg_t *c)
{
    armas_env_t *e = armas_getenv();
    if (e->cmem != (size_t)c->cmem || e->l1mem != (size_t)c->l1) armas_cbuf_release_thread_global();
    e->mb = c->mb; e->nb = c->nb; e->kb = c->kb; e->lb = c->lb; e->blas1min = c->b1; e->blas2min = c->b2;
    e->cmem = c->cmem; e->l1mem = c->l1; e->fixed = c->fixed;
}
/* fill the thread-global cache buffer with garbage so that any use of stale scratch content shows:
 * finite here (0x55.. = 1.19e103); the NaN variant is used by the scratch-independence check */
static inline void cfg_poison_cbuf_with(int byte)
{
    armas_cbuf_t *cb = armas_cbuf_get_thread_global();
    if (cb) memset(cb->data, byte, cb->len);
}
static inline void cfg_poison_cbuf(void) { cfg_poison_cbuf_with(0x55); }
#endif
