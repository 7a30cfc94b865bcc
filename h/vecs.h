/* vectors in every storage layout */
#ifndef VECS_H
#define VECS_H
enum { VC, VCP, VR, VRT, NVK };   /* column tight, column in a padded matrix, row with stride, row with step 1 */
static const char *vkname[] = {"column", "padded column", "row stride 4", "row"};
static inline armas_dense_t *gv_new(gm_t *g, int n, int kind)
{
    switch (kind) {
    case VC: return gm_new(g, n, 1, LT);
    case VCP: return gm_new(g, n, 1, LP);
    case VR: return gm_new(g, 1, n, LP);
    default: return gm_new(g, 1, n, LT);
    }
}
#define V(g,i) ((g)->m.elems[(g)->m.rows == 1 ? (long)(i) * (g)->m.step : (i)])
#define VS(g,i) ((g)->snap[(g)->off + ((g)->m.rows == 1 ? (long)(i) * (g)->m.step : (i))])
static inline void gv_ints(gm_t *g, int seed, int lo, int hi) { gm_ints(g, seed, lo, hi); }
#endif
