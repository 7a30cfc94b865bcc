#!/usr/bin/env python3
"""Generates properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, st, over, q, why, files, mech, obs=None, state=None):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q),
        why_tests_cant=why, anchors=dict(files=files, state=state or [],
        mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=obs or [], hook_needed=None)))

p("C01", "Simple threaded BLAS3 equals sequential under every interleaving",
  "With the 'simple' accelerator, matrix multiply, symmetric multiply, triangular multiply and triangular solve return the same result and status as the sequential call, whatever order the helper threads run in. No two threads touch the same memory without synchronisation, every created thread has been joined and every per-thread buffer released when the call returns, and repeated calls and releasing the accelerator always terminate.",
  ["schedules", "configurations"], "all interleavings of the calling thread with 1..4 helper threads (preemption bounded), all operations and flag combinations, several calls in sequence on one handle",
  "tests run each operation once, free-running, on one big matrix and compare with a tolerance; one OS schedule is seen",
  ["src/threaded/entry.c", "src/threaded/gemm.c", "src/threaded/symm.c", "src/threaded/trmm.c", "src/threaded/trsm.c", "src/base/accel.c", "src/base/cache.c"],
  [("recursive/tiled partition of C into disjoint blocks", "src/threaded/gemm.c"), ("thread-global cache buffer", "src/base/cache.c")], ["armas_mult", "armas_mult_sym", "armas_mult_trm", "armas_solve_trm", "armas_ac_release"])
p("C02", "Persistent-worker accelerator: exactly-once, terminating, race-free",
  "With the 'workers' accelerator every level-3 call returns only after each block of the result has been computed exactly once, and yields the sequential result, for every scheduling policy and under every interleaving of caller and workers, spurious condition-variable wake-ups included. Calls never hang, abort or touch memory whose lifetime has ended, and creating, using and releasing an accelerator any number of times (even without using it) always terminates, with the workers gone and the memory freed.",
  ["schedules", "configurations", "histories"], "all interleavings up to a preemption bound of caller + 1..3 workers, round-robin/random/two-choice policies, 1..3 tasks per call, init/call/release histories",
  "tests run one free schedule per policy; lost wake-ups, spurious wake-ups and start/stop races do not appear in a run",
  ["src/workers/workers.c", "src/workers/scheduler.h", "src/workers/queue.h", "src/workers/sync.h", "src/workers/counter.h", "src/workers/gemm.c", "src/workers/entry.c", "src/base/accel.c"],
  [("task queue with mutex and semaphore/condition", "src/workers/queue.h"), ("completion counter", "src/workers/counter.h"), ("worker start/stop protocol", "src/workers/workers.c"), ("atomic task state for two-choice scheduling", "src/workers/workers.c")],
  ["armas_ac_init", "armas_mult", "armas_ac_release"], [dict(name="task refcnt/state", meaning="who may still touch a task", where="src/workers/workers.h")])
p("C03", "Transient-worker accelerator: no task is lost, release is clean",
  "With the 'transient' accelerator every level-3 call returns only after each block of the result has been computed exactly once, and yields the sequential result, under every interleaving of caller and short-lived workers: no task stays queued with nobody to run it. The number of live worker threads never exceeds the configured maximum, and releasing the accelerator waits for the workers and frees everything.",
  ["schedules", "configurations", "histories"], "all interleavings up to a preemption bound of caller + up to 3 transient workers, 1..4 tasks per call, 1..3 consecutive calls, then release",
  "a lost hand-over needs a worker to be suspended between seeing an empty queue and retiring; tests see one schedule",
  ["src/workers/transient.c", "src/workers/queue.h", "src/workers/counter.h", "src/workers/entry.c", "src/base/accel.c"],
  [("running-worker counter and non-blocking queue read", "src/workers/transient.c")], ["armas_mult", "armas_ac_release"])
p("C04", "Parallel partitioning covers the result exactly for every shape",
  "For every matrix shape, operand flag combination, number of threads, block size and partitioning policy (recursive, blocked, tiled), the accelerated level-3 calls compute every element of the result exactly once and touch nothing outside it, so that the result equals the sequential one. The same holds for any max_cores/items_per_thread style configuration string accepted by the library.",
  ["inputs", "configurations"], "all result shapes up to a bound and shapes around multiples of the block sizes, x threads 1..8 x policies x flags",
  "tests use one size per operation, where block boundaries happen to be regular",
  ["src/threaded", "src/workers", "src/base/accel.c", "src/include/internal.h"], [("block index computation", "src/include/internal.h"), ("thread count from problem size", "src/threaded/entry.c")], ["armas_mult", "armas_mult_sym", "armas_mult_trm", "armas_solve_trm"])
p("C05", "Resource exhaustion yields an error code, never damage",
  "If any single memory allocation or thread creation made by the library fails, the public call in progress returns an error (or its correct result, if it can do without), and the program neither crashes nor hangs nor leaks what had been acquired. Repeating the call once resources are available again gives the correct result.",
  ["fault_sequences"], "every allocation / thread-creation site reached by each public operation, failed one at a time, for each accelerator and for sequential calls",
  "no existing test makes an allocation or pthread_create fail",
  ["src/base/cache.c", "src/base/matrix.c", "src/base/accel.c", "src/threaded", "src/workers", "src/lapack", "src/sparse", "src/io"],
  [("return value checks with ARMAS_EMEMORY", "throughout"), ("armas_walloc", "src/include/armas.h")], ["return codes", "conf.error"])
p("C06", "General matrix multiply is exact for all shapes, flags and blockings",
  "C := beta*C + alpha*op(A)*op(B) holds for every combination of transpose flags (and with absolute values of both operands), every non-empty shape including vectors and shapes that are no multiple of any block size, any alpha and beta including zero, views of larger matrices, and every blocking configuration. When beta is zero the old contents of C (even NaN) do not matter.",
  ["inputs", "configurations"], "all (m,n,k) up to a bound and sizes straddling every kernel and cache-block edge, x flags x alpha x beta x blocking x views",
  "tests check a few sizes for four flag combinations with tolerance; kernel tails depend on size mod 2/4/8/16 and on kb/mb/nb edges",
  ["src/blas/gemm.c", "src/blas/kernel.c", "src/include/kernel.h", "src/include/matcpy.h", "src/include/x86_64", "src/base/cache.c"], [("cache-blocked panel multiply", "src/blas/kernel.c"), ("SIMD inner kernels and copies", "src/include/x86_64"), ("cache split", "src/base/cache.c")], ["armas_mult"])
p("C07", "Symmetric products and rank-k updates are exact and touch one triangle",
  "Symmetric multiply, rank-k, rank-2k and triangular-part update compute their defining formula for both sides, both triangles, transposed operands, every shape, any alpha and beta. Only the selected triangle of a symmetric operand is read and only the selected triangle (or trapezoid) of the result is written.",
  ["inputs", "configurations"], "all shapes up to a bound plus block-edge sizes x flags x alpha x beta x blocking",
  "tests use a handful of sizes; they do not poison the other triangle and hardly vary blocking",
  ["src/blas/symm.c", "src/blas/syrk.c", "src/blas/syr2k.c", "src/blas/updtrmm.c", "src/blas/kernel.c"], [("blocked update of diagonal and off-diagonal blocks", "src/blas/updtrmm.c")], ["armas_mult_sym", "armas_update_sym", "armas_update2_sym", "armas_update_trm"])
p("C08", "Triangular multiply and solve are exact inverses for every shape",
  "Triangular multiply computes B := alpha*op(A)*B (or B*op(A)) and triangular solve its inverse, for left/right, upper/lower, transposed, unit/non-unit, every shape and blocking. The opposite triangle, and for unit matrices the diagonal, is never read, and solving after multiplying returns the original B.",
  ["inputs", "configurations"], "all (n,m) up to a bound plus block/recursion-edge sizes x 16 flag combinations x alpha x blocking",
  "tests fix one or two sizes and rely on tolerances; recursion splits and copy kernels have size-dependent tails",
  ["src/blas/trmm.c", "src/blas/trmm_blk.c", "src/blas/trmm_rec.c", "src/blas/trmm_unb.c", "src/blas/trsm.c", "src/blas/trsm_blk.c", "src/blas/trsm_rec.c", "src/blas/trsm_unb.c"], [("blocked, recursive and unblocked variants", "src/blas")], ["armas_mult_trm", "armas_solve_trm"])
p("C09", "Vector and matrix-vector operations are exact for all lengths and strides",
  "Level-1 and level-2 operations (dot, axpy, asum, nrm2, amax, swap, copy, scale, matrix-vector multiply/update general, symmetric and triangular, triangular solve) compute their definition for every length, row- or column-vector layout, stride, flag and coefficient, on both sides of the recursion thresholds. Reductions and index-of-maximum use the first maximal element, and empty operands leave outputs as defined.",
  ["inputs", "configurations"], "all lengths up to a bound plus threshold lengths x row/column layouts x flags x coefficients",
  "tests use a few lengths with contiguous vectors",
  ["src/blas/dot.c", "src/blas/axpy.c", "src/blas/asum.c", "src/blas/nrm2.c", "src/blas/iamax.c", "src/blas/swap.c", "src/blas/gemv.c", "src/blas/ger.c", "src/blas/symv.c", "src/blas/syr.c", "src/blas/syr2.c", "src/blas/trmv.c", "src/blas/trsv.c", "src/blas/updtrmv.c"], [("unrolled loops with tails; recursion above thresholds", "src/blas")], ["armas_dot", "armas_mvmult", "armas_mvsolve_trm"])
p("C10", "Element-wise matrix operations, copies and norms follow their definition",
  "Copy, set, scale, add, scaled sum, apply/iterate and norms act on exactly the selected part (whole, transposed source, upper, lower, unit or symmetric) of the matrix for every shape, layout and coefficient, and return the defined value. Elements outside the selected part are left untouched.",
  ["inputs", "configurations"], "all shapes up to a bound x flags x layouts x coefficients",
  "tests cover a few shapes; triangular parts of non-square matrices and padded views are not tested",
  ["src/blas/mcopy.c", "src/blas/mset.c", "src/blas/mscale.c", "src/blas/madd.c", "src/blas/mplus.c", "src/blas/mapply.c", "src/blas/mnorm.c", "src/base/matrix.c"], [("element loops", "src/blas")], ["armas_mcopy", "armas_mscale", "armas_madd", "armas_mplus", "armas_norm"])
p("C11", "Workspace queries are sufficient and honoured",
  "For every operation with an explicit-workspace form, a size query reports the bytes wanted without touching the operands; a call given exactly that much succeeds, never reads or writes outside it, and gives the same result as the form that allocates its own. A workspace below the documented minimum is rejected with the workspace error and the operands unchanged.",
  ["inputs", "configurations"], "every *_w operation x shapes x block sizes x workspace sizes 0..needed",
  "tests pass either the queried size or none; they do not probe smaller buffers or guard the ends",
  ["src/lapack", "src/include/armas.h", "src/eblas"], [("armas_wbuf reservation", "src/include/armas.h"), ("per-operation minimum workspace formulas", "src/lapack")], ["*_w functions"])
p("C12", "QR, LQ, QL and RQ: factors reproduce A, Q orthogonal, multiply/solve agree",
  "For every shape the factorisation accepts, A equals Q times the triangular factor with Q orthogonal; building Q for any number of reflectors, multiplying by Q or its transpose from either side, and the block-reflector form agree with that Q; and solving returns the least-squares or minimum-norm solution. Results do not depend on block size or workspace beyond rounding.",
  ["inputs", "configurations"], "all shapes up to a bound, degenerate value alphabets, block sizes 0..8, both sides, transposes",
  "tests use one or two tall/wide sizes with random data",
  ["src/lapack/qr.c", "src/lapack/lq.c", "src/lapack/ql.c", "src/lapack/rq.c", "src/lapack/qrt.c", "src/lapack/qrbld.c", "src/lapack/lqbld.c", "src/lapack/qlbld.c", "src/lapack/rqbld.c", "src/lapack/qrmult.c", "src/lapack/lqmult.c", "src/lapack/qlmult.c", "src/lapack/rqmult.c", "src/lapack/qrsolve.c", "src/lapack/lqsolve.c", "src/lapack/house.c"], [("Householder reflectors, blocked and unblocked", "src/lapack")], ["armas_qrfactor", "armas_qrbuild", "armas_qrmult", "armas_qrsolve"])
p("C13", "LU and Cholesky: factor, solve, invert and update agree; failure reported",
  "LU with or without pivoting and Cholesky with or without pivoting reproduce the (permuted) matrix, with pivots that bound the multipliers by one; solve and inverse satisfy A*X=B for every right-hand-side shape and flag; a Cholesky update gives the factor of A+xx'. A singular or not positive definite input is reported as such rather than yielding a silent wrong result, and only the selected triangle is read or written.",
  ["inputs", "configurations"], "all matrices over small value alphabets up to 3x3/4x4, all n up to a bound, block sizes, right-hand-side shapes",
  "tests use random well-conditioned matrices of one size",
  ["src/lapack/lu.c", "src/lapack/chol.c", "src/lapack/cholpv.c", "src/lapack/cholupd.c", "src/lapack/inv.c", "src/lapack/invspd.c", "src/lapack/invtrm.c", "src/base/pivot.c"], [("partial/diagonal pivoting", "src/lapack")], ["armas_lufactor", "armas_lusolve", "armas_cholfactor", "armas_cholsolve"])
p("C14", "LDL and Bunch-Kaufman: factor, solve and invert agree for symmetric A",
  "The LDL' (pivoted and not) and Bunch-Kaufman factorisations of a symmetric matrix reproduce the permuted matrix and their solve and inverse routines satisfy A*X=B for either triangle, every order, block size and number of right-hand sides, for indefinite matrices as well. Only the selected triangle is read or written.",
  ["inputs", "configurations"], "all symmetric matrices over small value alphabets up to 4x4, all n up to a bound x block sizes",
  "tests use a random symmetric matrix of one size, which rarely needs every pivot shape at a block edge",
  ["src/lapack/ldl.c", "src/lapack/ldlpv.c", "src/lapack/ldlbk.c", "src/lapack/ldlbkl.c", "src/lapack/ldlbku.c", "src/lapack/invldl.c"], [("1x1/2x2 pivot selection", "src/lapack/ldlbkl.c")], ["armas_bkfactor", "armas_bksolve", "armas_ldlfactor", "armas_ldlsolve", "armas_ldlinverse"])
p("C15", "Bidiagonal, tridiagonal and Hessenberg reductions are orthogonal similarities",
  "Reducing A to bidiagonal, tridiagonal or Hessenberg form, then building or multiplying with the orthogonal factors from either side reproduces A, for every shape, triangle, block size and workspace. The factors are orthogonal and build and multiply agree with each other.",
  ["inputs", "configurations"], "all shapes up to a bound x flags x block sizes x partial builds",
  "tests use one size per shape class",
  ["src/lapack/bired.c", "src/lapack/biredm.c", "src/lapack/bibld.c", "src/lapack/trired.c", "src/lapack/triredm.c", "src/lapack/tribld.c", "src/lapack/hess.c", "src/lapack/hessm.c"], [("two-sided Householder reduction", "src/lapack")], ["armas_bdreduce", "armas_trdreduce", "armas_hessreduce"])
p("C16", "SVD returns sorted non-negative singular values with orthogonal factors",
  "For every shape and every choice of wanted vectors, the SVD and the bidiagonal SVD (either algorithm, including values-only dqds) return the singular values in descending order, non-negative, with U*S*V' reproducing A and U, V orthonormal. Values do not depend on which vectors were asked for, and degenerate input (zeros, repeated values, zero rows, 1x1) converges.",
  ["inputs", "configurations"], "all small matrices over small alphabets, all bidiagonals over an alphabet up to 5, shapes straddling algorithm switch points x want flags x algorithm flags",
  "tests use a few random/well-separated matrices",
  ["src/lapack/svd.c", "src/lapack/bdsvd.c", "src/lapack/bdsvd_dk.c", "src/lapack/bdsvd_gr.c", "src/lapack/bdsweep.c", "src/lapack/dqds.c"], [("implicit QR sweeps with deflation", "src/lapack")], ["armas_svd", "armas_bdsvd", "armas_dqds"])
p("C17", "Symmetric eigensolver returns the ascending spectrum and its vectors",
  "The symmetric eigensolver, the tridiagonal eigensolver, bisection for selected eigenvalues and the secular-equation solver return eigenvalues in ascending order that are the eigenvalues of the input, for either triangle, with orthonormal vectors satisfying A*V=V*D when asked for. Selecting by index or by value range returns exactly the eigenvalues in that half-open range.",
  ["inputs", "configurations"], "all symmetric matrices over small alphabets up to 4x4, all tridiagonals over an alphabet up to 6, all index ranges, value ranges",
  "tests use one random matrix and one index range",
  ["src/lapack/evd.c", "src/lapack/trdevd.c", "src/lapack/trdbis.c", "src/lapack/trdsec.c", "src/lapack/trdsweep.c"], [("implicit QL/QR sweeps, Sturm counts", "src/lapack")], ["armas_eigen_sym", "armas_trdeigen", "armas_trdbisect", "armas_trdsec_solve"])
p("C18", "JSON matrix I/O round-trips and rejects malformed or truncated input",
  "Writing a dense matrix as JSON and reading it back through any stream gives the same matrix for every shape and layout, with element values equal to the precision written. Any truncated, malformed or inconsistent document, and any stream that fails at any point, yields an error with nothing leaked, no memory written out of bounds and no partially filled matrix reported as success.",
  ["inputs", "fault_sequences"], "all small matrices, every truncation and every single-token mutation of a document, every failing character position",
  "tests round-trip one matrix through one file",
  ["src/io/json_base.c", "src/io/json_file.c", "src/io/json_reader.c", "src/io/json_writer.c", "src/io/ios.c"], [("token reader and matrix state machine", "src/io/json_reader.c")], ["armas_json_read", "armas_json_write", "armas_json_load", "armas_json_dump"])
p("C19", "MatrixMarket I/O round-trips and rejects malformed input",
  "Dumping a dense or sparse matrix in MatrixMarket form and loading it back gives the same matrix for every shape and storage kind, array or coordinate, general or symmetric. Malformed, truncated or inconsistent files are rejected with an error, without out-of-bounds access, leak or uninitialised elements.",
  ["inputs", "fault_sequences"], "all small matrices and storage kinds, every truncation and single-token mutation of small files",
  "tests load and dump one matrix",
  ["src/io/iomm.c", "src/sparse/io.c"], [("banner, size and entry parsing", "src/io/iomm.c")], ["armas_mmload", "armas_mmdump", "armassp_mmload", "armassp_mmdump"])
p("C20", "Sparse containers represent exactly the appended entries in every format",
  "Whatever sequence of entries is appended, in any order, converting between coordinate, row-compressed, column-compressed and dense forms, copying, transposing and sorting preserves the represented matrix. Capacity limits are reported instead of overrun, and size, row and column pointers are consistent in every format.",
  ["histories", "inputs", "configurations"], "all append sequences up to a depth over small index sets, all format pairs, capacity 0..n",
  "tests build a few fixed matrices in one order",
  ["src/sparse/sparse.c", "src/sparse/convert.c", "src/sparse/copy.c", "src/sparse/sort.c", "src/sparse/dense.c", "src/sparse/util.c"], [("append/compress/sort", "src/sparse")], ["armassp_append", "armassp_tocsr", "armassp_tocsc", "armassp_todense"])
p("C21", "Sparse arithmetic equals the dense reference",
  "Sparse matrix-vector products (general, symmetric, triangular), triangular solves, sparse sums and sparse products equal the corresponding dense operation for every sparsity pattern, format, flag and coefficient. Results of sum and product are valid sparse matrices, with structure covering all non-zeros.",
  ["inputs", "configurations"], "all sparsity patterns up to 3x3 and structured larger ones x formats x flags x coefficients",
  "tests use one or two fixed sparse matrices",
  ["src/sparse/gemv.c", "src/sparse/symv.c", "src/sparse/trmv.c", "src/sparse/trsv.c", "src/sparse/mult.c", "src/sparse/add.c", "src/sparse/accum.c"], [("row/column oriented kernels, sparse accumulator", "src/sparse")], ["armassp_mvmult", "armassp_mvsolve_trm", "armassp_mult", "armassp_add"])
p("C22", "Iterative solvers report convergence truthfully",
  "Conjugate-gradient, CGNE/CGNR and GMRES, with and without preconditioner, leave a solution whose true residual meets the stopping criterion whenever they report success, do so within the matrix order for exact small problems, honour the iteration limit, and report the iteration count and residual. The incomplete factorisations equal the exact factors on patterns with no fill-in and keep the pattern otherwise.",
  ["inputs", "configurations"], "all small SPD / nonsingular systems over alphabets x solver x preconditioner x maxiter x restart length x workspace",
  "tests solve one system per solver with default settings",
  ["src/sparse/cgrad.c", "src/sparse/cgne.c", "src/sparse/cgnr.c", "src/sparse/gmres.c", "src/sparse/pcgrad.c", "src/sparse/pgmres.c", "src/sparse/icholz.c", "src/sparse/iluz.c"], [("iteration and stopping test", "src/sparse")], ["armassp_cgrad", "armassp_gmres", "armassp_pcgrad", "armassp_pgmres", "armassp_iluz"])
p("C23", "Extended-precision operations deliver the exact result rounded",
  "The extended-precision level 1-3 operations return results as accurate as if computed in twice the working precision, so that sums with heavy cancellation come out right, for every shape, flag, layout and blocking where the ordinary operation is defined. On well-conditioned data they agree with the ordinary operations.",
  ["inputs", "configurations"], "all cancellation patterns over an alphabet of magnitudes up to a length, x shapes x flags x blocking",
  "tests use a few generated ill-conditioned operands",
  ["src/eblas", "src/include/eft.h", "src/include/kernel_ext.h"], [("error-free transformations", "src/include/eft.h")], ["armas_ext_mult", "armas_ext_adot", "armas_ext_axpby", "armas_ext_mvmult", "armas_ext_solve_trm"])
p("C24", "Invalid arguments are rejected and leave every operand unchanged",
  "A public operation called with non-conforming shapes, a missing required operand (LAPACK-level operations), or a matrix where a vector is needed returns a negative status with the matching error code in the configuration, and changes no operand. The same call with conforming shapes succeeds, and the reported error never depends on earlier calls.",
  ["inputs", "configurations"], "every public operation x every assignment of operand shapes from a small set x flags",
  "tests call operations with valid shapes only",
  ["src/blas", "src/eblas", "src/lapack", "src/sparse", "src/base"], [("size checks at function entry", "throughout")], ["return codes", "conf.error"])
p("C25", "Configuration from the environment is parsed safely and completely",
  "The blocking, cache and accelerator settings in effect after start-up are those written in the environment variables, with documented defaults for absent, empty or non-positive fields. Parsing never alters the process environment, never crashes on any string, and yields settings with which every operation still gives correct results.",
  ["configurations", "inputs"], "all field combinations from an alphabet of values for each environment variable, each in a fresh process",
  "no test sets the variables to anything but one accelerator string",
  ["src/base/env.c", "src/base/accel.c", "src/base/cache.c"], [("field parsers", "src/base/env.c"), ("accelerator option parser", "src/base/accel.c")], ["armas_getenv", "armas_ac_init", "environ"])
p("C26", "Pivoting and sorting permute exactly and reversibly",
  "Applying a pivot vector forward to rows, columns or a symmetric triangle performs exactly the permutation it encodes, and applying it backward undoes it, for every pivot vector. Sorting vectors (and singular or eigenvectors along with them) yields the ordered permutation of the input for every input order including ties.",
  ["inputs"], "all pivot vectors for n<=5, all permutations with ties for n<=6 (7), x directions x layouts x flags",
  "tests sort one random vector and pivot one matrix",
  ["src/base/pivot.c", "src/base/pivot_ext.c", "src/lapack/sort.c", "src/lapack/qsort.c", "src/include/pivot.h"], [("row/column swaps, insertion and quick sort", "src/lapack/sort.c")], ["armas_pivot", "armas_qsort_vec", "armas_sort_vec", "armas_sort_eigenvec"])
p("C27", "Fortran and CBLAS interfaces equal the native operations",
  "The BLAS/LAPACK compatible entry points compute the reference BLAS definition for column- and row-major order, every flag letter in either case, negative and non-unit increments, leading dimensions larger than the row count, and zero sizes. Only the documented output elements change.",
  ["inputs", "configurations"], "all entry points x order x flag letters x increments in {-2,-1,1,2} x small shapes",
  "the compatibility layer has no tests",
  ["src/compat", "src/include/compat.h"], [("argument translation", "src/compat")], ["dgemm_", "cblas_dgemm", "..."])
p("C28", "Views, indexing and matrix life cycle are consistent",
  "Rows, columns, diagonals, submatrices and subvectors alias exactly the elements they name, including negative indexes and nested views, and get/set through them reaches only those elements. Allocation, copy, release, workspace-buffer and pivot-vector operations keep their stated sizes in any sequence, with no leak or double free. Printing writes the elements to the given stream.",
  ["inputs", "histories"], "all view constructions on small matrices, nested to depth 2, all operation sequences of buffers up to a depth",
  "tests use views incidentally in fixed patterns",
  ["src/include/matrix.h", "src/include/armas.h", "src/base/matrix.c"], [("inline view constructors", "src/include/matrix.h"), ("armas_wbuf stack", "src/include/armas.h")], ["armas_submatrix", "armas_diag", "armas_walloc", "armas_wreserve"])
p("C29", "Elementary transformations: Householder, Givens, hyperbolic, butterfly, diagonal",
  "A generated Householder, Givens or hyperbolic transformation maps its vector to the documented form and, applied from either side, equals multiplication by the matrix it stands for; butterfly and diagonal multiplication and solve equal their explicit matrices, and their inverses undo them. This holds for every length, layout, flag and extreme input (zero, tiny, huge, exactly aligned).",
  ["inputs"], "all vectors over an alphabet including 0, tiny and huge, up to length 4; all shapes x flags",
  "tests use random vectors",
  ["src/lapack/house.c", "src/lapack/housem.c", "src/lapack/hhouse.c", "src/lapack/givens.c", "src/lapack/rotate.c", "src/lapack/rbtgm.c", "src/lapack/rbtgu.c", "src/lapack/diag.c", "src/lapack/qdroot.c"], [("scaled norm computation; rotation formulas", "src/lapack")], ["armas_house", "armas_gvcompute", "armas_gvupdate", "armas_hhouse", "armas_mult_rbt", "armas_mult_diag"])
p("C30", "Results do not depend on blocking or cache configuration",
  "For every legal setting of the block sizes, recursion thresholds and cache sizes, and whether the internal buffer is global, per thread or supplied by the caller, every dense operation gives the result of the unblocked algorithm (exactly for exactly representable data, within rounding otherwise). No setting makes an operation hang, fail or touch memory outside the buffer.",
  ["configurations"], "products of block-size values 1..200, cache sizes from the minimum up, thresholds x all operations x several shapes",
  "tests run with the default configuration plus one block size",
  ["src/base/cache.c", "src/base/env.c", "src/blas/kernel.c", "src/lapack"], [("cache split between A and B panels", "src/base/cache.c"), ("blocked variants chosen by block size and workspace", "src/lapack")], ["armas_getenv", "armas_cbuf_select", "all dense operations"])
p("C31", "Operations write only their output and read only what they are documented to",
  "No public operation changes a const operand, an element outside the view it was given, or the part of the output it is documented to leave alone; and its result does not depend on elements outside the views, on unreferenced triangles, or on uninitialised scratch memory. Calls are repeatable: the same input gives bit-identical output.",
  ["inputs", "configurations"], "every public dense operation x shapes x padded/strided views, with poisoned surroundings",
  "tests use tightly packed matrices without guards",
  ["src/blas", "src/lapack", "src/eblas", "src/base"], [("stride handling in all kernels", "throughout")], ["all dense operations"])
p("C32", "Independent calls from several application threads do not interfere",
  "Application threads that call the library at the same time on disjoint data, each with its own configuration block, get the results they would get alone, under every interleaving, from the very first call on. There is no unsynchronised shared access, including one-time initialisation of configuration and per-thread buffers.",
  ["schedules", "histories"], "all interleavings up to a preemption bound of 2..3 application threads making first and later calls, with and without a shared accelerator",
  "no test calls the library from more than one application thread",
  ["src/base/env.c", "src/base/cache.c", "src/base/accel.c", "src/blas/gemm.c"], [("lazy reading of the environment", "src/base/env.c"), ("thread-local cache buffer", "src/base/cache.c")], ["armas_mult", "armas_conf_default", "armas_cbuf_get"])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
