/* C22: iterative solvers report convergence truthfully; incomplete factorisations keep the pattern */
#define RM 48
#include "sp.h"
#include "work.h"
const char *mc_name = "itersol";
static armas_conf_t cf;
void mc_setup(void) {}
enum { CG, PCGU, PCGL, CGNE, CGNR, GMRES, PGMRES, NSOLV };
static const char *sn[] = {"cgrad", "pcgrad upper", "pcgrad lower", "cgne", "cgnr", "gmres", "pgmres"};
static armas_sparse_t *from_dense(const ref_t *R, int kind, int part, int diag) /* part: 0 all, 1 upper, 2 lower; diag: keep zero diagonals as entries */
{
    armas_sparse_t *C = armassp_new(R->r, R->c, R->r * R->c + 1, ARMASSP_COO), *A;
    for (int i = 0; i < R->r; i++) for (int j = 0; j < R->c; j++) if ((R->v[i][j] != 0 || (diag && i == j)) && (part == 0 || (part == 1 ? i <= j : i >= j))) armassp_append(C, i, j, R->v[i][j]);
    A = armassp_convert(C, kind); armassp_free(C); return A;
}
static double nrm(const double *x, int n) { double s = 0; for (int i = 0; i < n; i++) s = hypot(s, x[i]); return s; }
/* rank by exact elimination on doubles of small integers (fraction free) */
static int rank_of(const ref_t *R)
{
    double a[4][4]; int r = 0; for (int i = 0; i < R->r; i++) for (int j = 0; j < R->c; j++) a[i][j] = R->v[i][j];
    for (int j = 0; j < R->c && r < R->r; j++) { int p = -1; for (int i = r; i < R->r; i++) if (a[i][j] != 0) { p = i; break; } if (p < 0) continue;
        for (int k = 0; k < R->c; k++) { double t = a[p][k]; a[p][k] = a[r][k]; a[r][k] = t; }
        for (int i = r + 1; i < R->r; i++) { double f = a[i][j], d = a[r][j]; for (int k = 0; k < R->c; k++) a[i][k] = a[i][k] * d - a[r][k] * f; } r++; }
    return r;
}
static void solve_case(ref_t *R, int solver, int kind, int mode, int bsel, int xsel, int gm, int form, int full)
{
    int m = R->r, n = R->c; gm_t b, x; gv_new(&b, m, bsel & 1 ? VR : VC); gv_new(&x, n, xsel & 1 ? VR : VC);
    double ex[RM]; for (int j = 0; j < n; j++) ex[j] = (j * 5 + 3) % 4 - 1.0 + (j == 0);
    for (int i = 0; i < m; i++) { double s = 0; for (int j = 0; j < n; j++) s += R->v[i][j] * ex[j]; V(&b, i) = bsel == 0 ? s : bsel == 1 ? s * 1024 : bsel == 2 ? (i == m - 1) : bsel == 3 ? 0 : 1.0 - 2 * (i % 2); }
    for (int j = 0; j < n; j++) V(&x, j) = xsel == 0 ? 0 : xsel == 1 ? ex[j] : xsel == 2 ? 1 : xsel == 3 ? -3.5 + j : xsel == 4 ? (j ? 1.25 + j : 0) : (j == n - 1 ? 0 : 2 - j);
    double r0[RM], r1[RM], z1[RM], z0[RM], af = 0; for (int i = 0; i < m; i++) { r0[i] = V(&b, i); for (int j = 0; j < n; j++) r0[i] -= R->v[i][j] * V(&x, j), af = hypot(af, R->v[i][j]); }
    for (int j = 0; j < n; j++) { z0[j] = 0; for (int i = 0; i < m; i++) z0[j] += R->v[i][j] * r0[i]; }
    double nr0 = nrm(r0, m), nz0 = nrm(z0, n), eps = 1.11e-16, x0n = 0; for (int j = 0; j < n; j++) x0n = hypot(x0n, V(&x, j));
    int mi; cf = *armas_conf_default(); cf.stop = 0; cf.smult = 0; cf.maxiter = 0; cf.gmres_m = gm; cf.error = 0; cf.numiters = -77; cf.residual = -77;
    /* 0 default, 1 smult, 2 absolute, 3 one iteration, 4 smult with exactly n iterations, 5 absolute with one iteration, 6: two iterations */
    if (mode == 1 || mode == 3 || mode == 4 || mode == 6) cf.smult = 1e-7; if (mode == 2 || mode == 5) cf.stop = 1e-6; if (mode == 3 || mode == 5) cf.maxiter = 1; if (mode == 4) cf.maxiter = n; if (mode == 6) cf.maxiter = 2;
    double stop = cf.stop > 0 ? cf.stop : (cf.smult > 0 ? cf.smult : eps * (solver >= GMRES ? n : 1)) * nr0, zst = cf.stop > 0 ? cf.stop : (cf.smult > 0 ? cf.smult : eps) * nz0;
    mi = cf.maxiter > 0 ? cf.maxiter : solver == CG ? 4 * m : solver >= GMRES ? 5 * m : 2 * m;
    int tri = solver == CG ? (gm & 1 ? 1 : 2) : solver == PCGU ? 1 : solver == PCGL ? 2 : 0, fl = tri == 1 ? ARMAS_UPPER : tri == 2 ? ARMAS_LOWER : 0;
    armas_sparse_t *A = from_dense(R, kind, gm == 3 ? 0 : tri, 0), *M = 0; ref_t RS; for (int i = 0; i < m; i++) memset(RS.v[i], 0, n * sizeof(double)); RS.r = m; RS.c = n;
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (gm == 3 || tri == 0 || (tri == 1 ? i <= j : i >= j)) RS.v[i][j] = R->v[i][j];
    armassp_precond_t P; memset(&P, 0, sizeof P); armas_conf_t c0;
    if (solver == PCGU || solver == PCGL) { M = from_dense(R, kind, tri, 0); if (armassp_init_icholz(&P, M, fl) != 0) { EXPECT("icholz", n > 3, "icholz failed on a positive definite matrix of order %d", n); armassp_free(M); armassp_free(A); mc_outcome(3); return; } /* the incomplete factorisation of a definite matrix may break down when there is fill-in */ }
    if (solver == PGMRES) { M = from_dense(R, kind, 0, 1); if (armassp_init_iluz(&P, M) != 0) { armassp_free(M); armassp_free(A); mc_outcome(1); return; } }
    gm_snap(&b); gm_snap(&x); int rc = -1; armas_wbuf_t *w = 0, q = ARMAS_WBNULL; mc_ops(1);
    if (form) {
        #define QW(W) (solver == CG ? armassp_cgrad_w(&x.m, A, &b.m, fl, W, &cf) : solver == PCGU || solver == PCGL ? armassp_pcgrad_w(&x.m, A, &b.m, &P, fl, W, &cf) : solver == CGNE ? armassp_cgne_w(&x.m, A, &b.m, W, &cf) : solver == CGNR ? armassp_cgnr_w(&x.m, A, &b.m, W, &cf) : solver == GMRES ? armassp_gmres_w(&x.m, A, &b.m, W, &cf) : armassp_pgmres_w(&x.m, A, &b.m, &P, W, &cf))
        rc = QW(&q); EXPECT("query", rc == 0 && q.bytes > 0, "workspace query returned %d, %zu bytes", rc, q.bytes); gm_same(&x, "x");
        if (solver < GMRES) { w = work(q.bytes - 1); rc = QW(w); EXPECT("short-work", rc < 0 && cf.error == ARMAS_EWORK, "short workspace: returned %d error %d", rc, cf.error); gm_same(&x, "x"); workdone(); cf.error = 0; }
        else if (form == 2) { int k = 1 + (gm ? gm : 6) / 2; q.bytes = (m + 3) * (k + 2) * sizeof(double); gm = k; }
        c0 = cf; w = work(q.bytes); rc = QW(w); workdone();
    } else { c0 = cf; rc = solver == CG ? armassp_cgrad(&x.m, A, &b.m, fl, &cf) : solver == PCGU || solver == PCGL ? armassp_pcgrad(&x.m, A, &b.m, &P, fl, &cf) : solver == CGNE ? armassp_cgne(&x.m, A, &b.m, &cf) : solver == CGNR ? armassp_cgnr(&x.m, A, &b.m, &cf) : solver == GMRES ? armassp_gmres(&x.m, A, &b.m, &cf) : armassp_pgmres(&x.m, A, &b.m, &P, &cf); }
    EXPECT("status", rc == 0 || (rc < 0 && cf.error == ARMAS_ECONVERGE), "returned %d error %d", rc, cf.error);
    gm_same(&b, "b"); gm_guard(&x, "x"); if (!sp_check("A", A, &RS, -1, kind, 1)) return;
    EXPECT("conf", cf.maxiter == c0.maxiter && cf.stop == c0.stop && cf.smult == c0.smult && cf.gmres_m == c0.gmres_m, "iteration parameters were changed");
    EXPECT("numiters", cf.numiters >= 0 && cf.numiters <= mi, "%d iterations reported, limit %d", cf.numiters, mi);
    double xn = 0; for (int j = 0; j < n; j++) xn = hypot(xn, V(&x, j));
    for (int i = 0; i < m; i++) { r1[i] = V(&b, i); for (int j = 0; j < n; j++) r1[i] -= R->v[i][j] * V(&x, j); }
    for (int j = 0; j < n; j++) { z1[j] = 0; for (int i = 0; i < m; i++) z1[j] += R->v[i][j] * r1[i]; }
    double tr = nrm(r1, m), tz = nrm(z1, n), sl = 1e-12 * (af * (xn + x0n) + nrm(r0, m) + nr0), slz = sl * af;
    /* near breakdown of an inconsistent or singular system the iterates are of no meaning, but success may not be claimed */
    if (rc == 0) {
        EXPECT("finite", xn < 1e300, "success reported, solution is not finite");
        EXPECT("converged", tr <= stop * (1 + 1e-10) + sl || (solver == CGNR && tz <= zst * (1 + 1e-10) + slz), "success reported, residual |b-Ax| = %g, stopping criterion %g (A'r %g, %g)", tr, stop, tz, zst);
        EXPECT("residual", solver == CGNR ? fabs(cf.residual - tz) <= slz + 1e-300 : fabs(cf.residual - tr) <= sl + 1e-300, "reported residual %g, true %g", cf.residual, solver == CGNR ? tz : tr);
    } else if (full && xn < 1e300) {
        EXPECT("failed", tr + sl >= stop && (solver != CGNR || tz + slz >= zst), "failure reported, residual %g meets the criterion %g", tr, stop);
        EXPECT("residual", solver == CGNR ? fabs(cf.residual - tz) <= slz + 1e-300 : fabs(cf.residual - tr) <= sl + 1e-300, "reported residual %g, true %g", cf.residual, solver == CGNR ? tz : tr);
    }
    if (nr0 <= stop && cf.numiters != 0 && nr0 == 0) EXPECT("exact-start", 0, "%d iterations from an exact solution", cf.numiters);
    if (nr0 == 0) { EXPECT("exact-start", rc == 0, "exact initial guess: returned %d error %d", rc, cf.error); gm_same(&x, "x"); }
    if (full == 2) { EXPECT("solved", rc == 0 || (mode != 1 && mode != 2), "well conditioned system of order %d not solved: returned %d, %d iterations, residual %g", n, rc, cf.numiters, tr); full = 0; }
    int consistent = full && (solver != CGNR ? 1 : 1);
    if (consistent && (mode == 1 || (mode == 4 && n < 4) || mode == 2) && (solver < GMRES || (gm ? gm : 6) >= n))
        EXPECT("order", rc == 0 && cf.numiters <= (n < 4 ? n : n + 2), "not solved in %d iterations: returned %d, %d iterations, residual %g", n, rc, cf.numiters, tr);
    if (full && mode == 0 && m == n && solver < GMRES && rc == 0) EXPECT("default", tr <= stop + sl, "default criterion: residual %g", tr);
    armassp_free(A); armassp_free(M); mc_outcome(mc_hash(&rc, sizeof rc, cf.numiters * 8 + solver));
}
static void t_spd(void)
{
    int n = mc_range("n", 1, thorough() ? 4 : 3), nl = n * (n - 1) / 2; ref_t R; double L[4][4] = {{0}};
    for (int i = 0; i < n; i++) L[i][i] = 1 + mc_choose("d", 2);
    int p3 = 1; for (int i = 0; i < nl; i++) p3 *= 3; int e = mc_choose("l", p3);
    for (int i = 0, t = e; i < n; i++) for (int j = 0; j < i; j++) { L[i][j] = t % 3 - 1; t /= 3; }
    int s = mc_choose("solver", NSOLV), kind = mc_choose("kind", 2), mode = mc_choose("mode", 7), bs, xs, gm = 0, form;
    if (n < 3 || thorough()) { bs = mc_choose("b", 5); xs = mc_choose("x", 6); form = mc_choose("form", s >= GMRES ? 3 : 2); } else { int k = mc_choose("bx", 6); bs = (k + e) % 5; xs = (k * 7 + e / 5 + mode) % 6; form = (k + mode) % (s >= GMRES ? 3 : 2); }
    if (s >= GMRES) gm = MC_PICK("m", 0, 1, 2, 3); else gm = s == CG || s == PCGU || s == PCGL ? MC_PICK("full storage", 0, 1, 3) : 0;
    if (!mc_begin()) return;
    mc_note("%s n=%d L code %d diag %g%g%g %s mode=%d b=%d x=%d m=%d form=%d", sn[s], n, e, L[0][0], L[1][1], L[2][2], spk[kind], mode, bs, xs, gm, form);
    for (int i = 0; i < n; i++) memset(R.v[i], 0, n * sizeof(double)); R.r = R.c = n; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int k = 0; k < n; k++) R.v[i][j] += L[i][k] * L[j][k];
    solve_case(&R, s, kind, mode, bs, xs, gm, form, 1);
}
static void t_gen(void)
{
    static const int SH[][2] = {{1, 1}, {2, 2}, {3, 3}, {1, 2}, {2, 3}, {2, 1}, {3, 2}, {1, 3}, {3, 1}};
    int sh = mc_choose("shape", 9), m = SH[sh][0], n = SH[sh][1], sq = m == n, np = 1, alpha = sh < 2 ? 5 : 3; for (int i = 0; i < m * n; i++) np *= alpha;
    int e = mc_choose("A", np), s = sq ? CGNE + mc_choose("solver", 4) : m < n ? CGNE : CGNR, kind, mode, bs, xs, gm = 0, form;
    if (sh == 2 && !thorough()) { int k = e % 11; kind = k & 1; mode = (int[]){1, 2, 4, 0, 6, 4, 1, 0, 3, 1, 2}[k]; bs = (e / 3) % 5; xs = (e / 7) % 6; form = e % (s >= GMRES ? 3 : 2); if (s >= GMRES) gm = MC_PICK("m", 0, 2); }
    else { kind = mc_choose("kind", 2); mode = mc_choose("mode", 7); bs = mc_choose("b", 5); xs = sh == 2 ? e % 6 : mc_choose("x", 6); form = sh == 2 ? (e + mode) % (s >= GMRES ? 3 : 2) : mc_choose("form", s >= GMRES ? 3 : 2); if (s >= GMRES) gm = MC_PICK("m", 0, 1, 2, 3, 5); }
    if (!mc_begin()) return;
    mc_note("%s %dx%d A code %d %s mode=%d b=%d x=%d m=%d form=%d", sn[s], m, n, e, spk[kind], mode, bs, xs, gm, form);
    ref_t R; for (int i = 0; i < m; i++) memset(R.v[i], 0, n * sizeof(double)); R.r = m; R.c = n; for (int i = 0, t = e; i < m; i++) for (int j = 0; j < n; j++) { R.v[i][j] = t % alpha - alpha / 2; t /= alpha; }
    if (n == 3 && m == 3) for (int i = 0; i < 3; i++) R.v[i][i] *= 2;
    int rk = rank_of(&R), full = rk == (m < n ? m : n);
    solve_case(&R, s, kind, mode, bs, xs, gm, form, full);
}
/* larger, sparse, well conditioned systems: default sizes of the Krylov space, restarts, long recurrences */
static void t_big(void)
{
    int mat = mc_choose("matrix", 5), n = thorough() ? MC_PICK("n", 6, 7, 8, 20, 21, 33, 48) : MC_PICK("n", 6, 7, 21, 33), m = n, s = mc_choose("solver", NSOLV), kind = mc_choose("kind", 2), mode = MC_PICK("mode", 0, 1, 2, 6), bs = MC_PICK("b", 0, 1, 4), xs = MC_PICK("x", 0, 1, 3), gm = 0, form = mc_choose("form", s >= GMRES ? 3 : 2);
    if (s >= GMRES) gm = MC_PICK("m", 0, 5, 20, 60); else gm = s == CG || s == PCGU || s == PCGL ? MC_PICK("full storage", 0, 1, 3) : 0;
    if (mat == 3) m = n + 5 > RM ? RM : n + 5;
    if (mat == 4) n = (m = n) + 5 > RM ? RM : m + 5;
    int ok = mat < 2 || (mat == 2 && s >= CGNE) || (mat == 3 && s == CGNR && m > n) || (mat == 4 && s == CGNE && m < n);
    if (!ok) { if (mc_begin()) mc_ops(1); return; }
    if (!mc_begin()) return;
    mc_note("%s matrix %d %dx%d %s mode=%d b=%d x=%d m=%d form=%d", sn[s], mat, m, n, spk[kind], mode, bs, xs, gm, form);
    ref_t R; for (int i = 0; i < m; i++) memset(R.v[i], 0, n * sizeof(double)); R.r = m; R.c = n;
    for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
        int d = i - j;
        R.v[i][j] = mat == 0 ? (d == 0 ? 4 : abs(d) == 1 ? -1 : 0) : mat == 1 ? (d == 0 ? 6 + i % 3 : abs(d) == 7 ? 2 : abs(d) == 3 ? -1 : 0) : mat == 2 ? (d == 0 ? 5 : d == 1 ? -2 : d == -1 ? -1 : d == 9 ? 1 : 0) : (d == 0 ? 5 : d == 2 ? 1 : d == -1 ? -2 : (i * 7 + j * 3) % 23 == 0 ? 1 : 0);
    }
    solve_case(&R, s, kind, mode, bs, xs, gm, form, mat < 3 || bs == 0 || bs == 1 || mat == 4 ? 2 : 1);
}
/* incomplete factorisations: dense reference restricted to the pattern */
static void t_inc(void)
{
    int n = mc_range("n", 1, 4), ilu = mc_choose("ilu", 2), no = ilu ? n * (n - 1) : n * (n - 1) / 2; unsigned bits = mc_choose("pattern", 1 << no);
    int kind = mc_choose("kind", 2), up = ilu ? 0 : mc_choose("upper", 2), fullst = ilu ? 1 : mc_choose("full storage", 2), diag = mc_choose("diagonal", 2 + n), seed = mc_choose("values", 2);
    if (!mc_begin()) return;
    mc_note("%s n=%d pattern %x %s %s%s diagonal case %d values %d", ilu ? "ILU(0)" : "IC(0)", n, bits, spk[kind], up ? "upper" : "lower", fullst ? " full storage" : "", diag, seed);
    ref_t R, S, F; for (int i = 0; i < n; i++) memset(R.v[i], 0, n * sizeof(double)); R.r = R.c = n; unsigned bb = bits; int has[4][4] = {{0}}, pat[4][4] = {{0}};
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (i == j || (!ilu && j > i)) continue; if (bb & 1) { R.v[i][j] = sp_val(i, j, seed); has[i][j] = 1; if (!ilu) { R.v[j][i] = R.v[i][j]; has[j][i] = 1; } } bb >>= 1; }
    for (int i = 0; i < n; i++) { R.v[i][i] = seed ? 32 + 3 * i : 16; has[i][i] = 1; }
    int bad = -1; if (diag == 1) { R.v[n - 1][n - 1] = ilu ? -R.v[n - 1][n - 1] : -1; if (!ilu) bad = n - 1; } else if (diag > 1) { bad = diag - 2; if (seed) R.v[bad][bad] = 0; else { R.v[bad][bad] = 0; has[bad][bad] = 0; } }
    armas_sparse_t *C = armassp_new(n, n, n * n + 1, ARMASSP_COO), *A; memset(&S, 0, sizeof S); S.r = S.c = n;
    int cnt = 0; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (has[i][j] && (fullst || (up ? i <= j : i >= j))) { armassp_append(C, i, j, R.v[i][j]); S.v[i][j] = R.v[i][j]; pat[i][j] = 1; cnt++; }
    A = armassp_convert(C, kind); armassp_free(C); F = S; int fill = 0, sing = -1;
    if (ilu) { for (int i = 0; i < n; i++) for (int k = 0; k < i; k++) { if (!has[i][k]) continue; if (F.v[k][k] == 0) { sing = k; break; } F.v[i][k] /= F.v[k][k]; for (int j = k + 1; j < n; j++) { if (has[i][j]) F.v[i][j] -= F.v[i][k] * F.v[k][j]; else if (F.v[k][j] != 0 && has[k][j]) fill = 1; } } for (int i = 0; i < n; i++) if (F.v[i][i] == 0) sing = i; }
    else { double l[4][4] = {{0}}; for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { double s = R.v[i][j]; for (int k = 0; k < j; k++) s -= l[i][k] * l[j][k]; if (!has[i][j]) { if (s != 0) fill = 1; continue; } if (i == j) { if (s <= 0) sing = i; l[i][i] = s > 0 ? sqrt(s) : 1; } else l[i][j] = s / l[j][j]; }
        for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { if (up) F.v[j][i] = l[i][j]; else F.v[i][j] = l[i][j]; } }
    armassp_precond_t P; memset(&P, 0, sizeof P); int fl = up ? ARMAS_UPPER : ARMAS_LOWER; mc_ops(1);
    int rc = ilu ? armassp_init_iluz(&P, A) : armassp_init_icholz(&P, A, fl);
    if (bad >= 0 || sing >= 0) {
        /* ILU: a zero pivot that became non-zero by elimination is fine */
        if (sing >= 0 || !has[bad >= 0 ? bad : 0][bad >= 0 ? bad : 0]) EXPECT("breakdown", rc < 0, "breakdown at %d not reported", sing >= 0 ? sing : bad);
        if (rc < 0) { armassp_free(A); mc_outcome(2); return; }
    }
    EXPECT("rc", rc == 0, "factorisation returned %d", rc);
    EXPECT("pattern", A->nnz == cnt && A->rows == n && A->cols == n, "number of entries changed to %d from %d", A->nnz, cnt);
    for (int k = 0; k < n; k++) for (int p = A->ptr[k]; p < A->ptr[k + 1]; p++) { int i = kind == ARMASSP_CSR ? k : A->ix[p], j = kind == ARMASSP_CSR ? A->ix[p] : k; EXPECT("pattern", pat[i][j], "entry (%d,%d) is not in the pattern", i, j); pat[i][j] = 0;
        EXPECT("factor", fabs(A->elems.v[p] - F.v[i][j]) <= 1e-12 * (1 + fabs(F.v[i][j])), "entry (%d,%d) is %.15g, expected %.15g", i, j, A->elems.v[p], F.v[i][j]); }
    /* preconditioner application, in place and not; equals A^-1 when there is no fill-in */
    gm_t x, z; gv_new(&x, n, VC); gv_new(&z, n, VCP); double M[4][4], t[4];
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double s = 0; for (int k = 0; k < n; k++) { double l = ilu ? (i == k ? 1 : i > k ? F.v[i][k] : 0) : (up ? (k <= i ? F.v[k][i] : 0) : (i >= k ? F.v[i][k] : 0)), u = ilu ? (k <= j ? F.v[k][j] : 0) : (up ? (k <= j ? F.v[k][j] : 0) : (j >= k ? F.v[j][k] : 0)); s += l * u; } M[i][j] = s; }
    if (!fill) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) EXPECT("exact", fabs(M[i][j] - R.v[i][j]) <= 1e-11 * (1 + fabs(R.v[i][j])), "no fill-in, product (%d,%d) is %g not %g", i, j, M[i][j], R.v[i][j]);
    cf = *armas_conf_default(); 
    for (int al = 0; al < 2; al++) {
        for (int i = 0; i < n; i++) { double s = 0; for (int j = 0; j < n; j++) s += M[i][j] * (j + 1 - 2 * (j % 2)); V(&x, i) = s; V(&z, i) = 99; t[i] = s; }
        gm_snap(&x); rc = P.precond(al ? &x.m : &z.m, &P, &x.m, &cf); gm_t *o = al ? &x : &z; EXPECT("precond", rc == 0, "preconditioner returned %d", rc); if (!al) gm_same(&x, "x");
        for (int i = 0; i < n; i++) EXPECT("precond", fabs(V(o, i) - (i + 1 - 2 * (i % 2))) <= 1e-10, "preconditioner: element %d is %g, expected %d", i, V(o, i), i + 1 - 2 * (i % 2));
    }
    armassp_free(A); mc_outcome(mc_hash(&F, sizeof F, ilu));
}
static void t_reject(void)
{
    int s = mc_choose("solver", NSOLV), bad = mc_choose("bad", 8), kind = mc_choose("kind", 2), form = mc_choose("form", 2);
    if (!mc_begin()) return;
    mc_note("%s bad argument case %d %s form %d", sn[s], bad, spk[kind], form);
    ref_t R, J; memset(&R, 0, sizeof R); R.r = R.c = 3; for (int i = 0; i < 3; i++) R.v[i][i] = 2;
    armas_sparse_t *A = from_dense(&R, kind, 0, 0), *M = from_dense(&R, kind, 0, 0); armassp_precond_t P; memset(&P, 0, sizeof P); if (s == PGMRES) armassp_init_iluz(&P, M); else armassp_init_icholz(&P, M, ARMAS_LOWER);
    int nx = 3, nb = 3, r2 = 0; if (bad == 0) nx = 2; if (bad == 1) nb = 4; if (bad == 2) { armassp_free(A); A = sp_make(&J, 3, 3, 0x111, ARMASSP_COO, 0, 0, 0); } if (bad == 3) { armassp_free(A); A = sp_make(&J, 2, 3, 0x3f, kind, 0, 0, 0); if (s == CGNE || s == CGNR) nx = 2; } if (bad == 4) r2 = 1;
    gm_t x, b; gm_new(&x, r2 ? 2 : nx, r2 ? 2 : 1, LP); gm_new(&b, nb, 1, LP); gm_ints(&x, 1, 1, 3); gm_ints(&b, 2, 1, 3); gm_snap(&x); gm_snap(&b); cf = *armas_conf_default(); cf.error = 0;
    armas_sparse_t *Ap = bad == 5 ? 0 : A; armas_dense_t *xp = &x.m, *bp = &b.m; armassp_precond_t *Pp = &P; if (bad == 6) { if (s == PCGU || s == PCGL || s == PGMRES) Pp = 0; else Ap = 0; } if (bad == 7) bp = 0;
    int rc, fl = ARMAS_LOWER; armas_wbuf_t w = ARMAS_WBNULL; armas_walloc(&w, 4096); mc_ops(1);
    if (form == 0) rc = s == CG ? armassp_cgrad(xp, Ap, bp, fl, &cf) : s == PCGU || s == PCGL ? armassp_pcgrad(xp, Ap, bp, Pp, fl, &cf) : s == CGNE ? armassp_cgne(xp, Ap, bp, &cf) : s == CGNR ? armassp_cgnr(xp, Ap, bp, &cf) : s == GMRES ? armassp_gmres(xp, Ap, bp, &cf) : armassp_pgmres(xp, Ap, bp, Pp, &cf);
    else rc = s == CG ? armassp_cgrad_w(xp, Ap, bp, fl, &w, &cf) : s == PCGU || s == PCGL ? armassp_pcgrad_w(xp, Ap, bp, Pp, fl, &w, &cf) : s == CGNE ? armassp_cgne_w(xp, Ap, bp, &w, &cf) : s == CGNR ? armassp_cgnr_w(xp, Ap, bp, &w, &cf) : s == GMRES ? armassp_gmres_w(xp, Ap, bp, &w, &cf) : armassp_pgmres_w(xp, Ap, bp, Pp, &w, &cf);
    EXPECT("reject", rc < 0 && cf.error != 0, "bad argument %d: returned %d error %d", bad, rc, cf.error);
    gm_same(&x, "x"); gm_same(&b, "b"); armas_wrelease(&w); armassp_free(A); armassp_free(M);
}
void mc_body(void)
{
    long l0 = mc_live();
    switch (mc_choose("family", 5)) { case 4: t_big(); break; case 0: t_spd(); break; case 1: t_gen(); break; case 2: t_inc(); break; default: t_reject(); }
    if (mc_failed()) return;
    mc_cmp(1); if (mc_live() != l0) mc_fail("leak", "%ld blocks not released", mc_live() - l0);
}
