"""Which harnesses decide which property.  H(name, src, mode, ...): see mc/build.py."""
def H(name, src=None, **k): return dict(name=name, src=src or name + '.c', **k)
TECH = 'stateless model checking of the real code: exhaustive enumeration of %s inside stated bounds'
TRUST = ' Trusted: the naive reference in the harness, the compiler and AddressSanitizer. Nothing is claimed outside the enumerated bounds.'
EXACT = 'Every choice vector is one execution of the library (shape, flags, coefficients, storage layout, blocking configuration); results are compared element by element with a naive reference over small integers, where double arithmetic is exact; source operands, padding and guard zones are compared byte by byte. '
CHECKS = {
 'C06': dict(harnesses=[H('gemm')], technique=TECH % 'shapes, flags, coefficients, layouts and cache configurations',
             note=EXACT + TRUST, rule='one case per choice vector; a case is non-trivial when its result digest is new'),
 'C07': dict(harnesses=[H('sym3')], technique=TECH % 'shapes, flags, coefficients, layouts and cache configurations',
             note=EXACT + TRUST, rule='as C06'),
 'C08': dict(harnesses=[H('tri3')], technique=TECH % 'shapes, flags, coefficients, layouts and cache configurations',
             note=EXACT + TRUST, rule='as C06'),
}
NOT_APPLICABLE = {}
CONCX = dict(mode='conc', extra=['mc.c', 'conc.c'])
CTECH = 'stateless model checking of the real threads: a controlled scheduler enumerates the interleavings (depth-first, bounded preemptions and spurious wake-ups) of every scenario, with happens-before race detection on every access'
CNOTE = ('The library is compiled with its memory accesses instrumented and its pthread calls replaced by a scheduler which runs one thread at a time; every choice of next thread within the bounds is executed. '
         'Each execution is checked for equality with the sequential result, data races, use after free, deadlock, hang, leak, unjoined threads and failed assertions. '
         'Trusted: the scheduler and its model of mutexes, condition variables and atomics (sequentially consistent). Nothing is claimed outside the bounds of DESIGN.md.')
CRULE = 'one state per scenario (operation, shape, configuration, bounds), transitions count explored executions; traces_validated counts executions compared with the sequential result'
CHECKS.update({
 'C01': dict(harnesses=[H('simple', 'acc_conc.c', hflags=['-DPROP=1'], **CONCX)], technique=CTECH, note=CNOTE, rule=CRULE),
 'C02': dict(harnesses=[H('workers', 'acc_conc.c', hflags=['-DPROP=2'], **CONCX)], technique=CTECH, note=CNOTE, rule=CRULE),
 'C03': dict(harnesses=[H('transient', 'acc_conc.c', hflags=['-DPROP=3'], **CONCX)], technique=CTECH, note=CNOTE, rule=CRULE),
 'C04': dict(harnesses=[H('part')], technique=TECH % 'shapes, flags, thread counts, block sizes and partitioning policies',
             note=EXACT + 'Threads run under the ordinary scheduler here; interleavings are decided by C01-C03.' + TRUST, rule='as C06'),
})
CHECKS.update({
 'C09': dict(harnesses=[H('vec')], technique=TECH % 'lengths, shapes, storage layouts, flags, coefficients and recursion thresholds', note=EXACT + TRUST, rule='as C06'),
 'C10': dict(harnesses=[H('map')], technique=TECH % 'operations, shapes, element selections, storage layouts and coefficients', note=EXACT + TRUST, rule='as C06'),
})
NUM = 'Every choice vector is one execution of the library on a deterministic input (random, zero, identity, rank one, zero column or row, triangular, tiny, huge, repeated columns, ...). The factors are multiplied back with naive long-double arithmetic and residuals are bounded by a fixed multiple of the unit roundoff; workspaces carry guard bytes, operands guard zones. '
CHECKS.update({
 'C12': dict(harnesses=[H('qr')], technique=TECH % 'families, shapes, reflector counts, sides, flags, block sizes, workspaces, layouts and input patterns', note=NUM + TRUST, rule='as C06'),
})
CHECKS.update({
 'C13': dict(harnesses=[H('luchol')], technique=TECH % 'small-alphabet matrices, shapes, flags, block sizes, workspaces, layouts and input patterns', note=NUM + TRUST, rule='as C06'),
})
CHECKS.update({
 'C14': dict(harnesses=[H('ldlbk')], technique=TECH % 'small-alphabet symmetric matrices, orders, triangles, block sizes, workspaces, layouts and input patterns', note=NUM + TRUST, rule='as C06'),
})
CHECKS.update({
 'C15': dict(harnesses=[H('reduce')], technique=TECH % 'families, shapes, small-alphabet matrices, reflector counts, sides, flags, block sizes, workspaces, layouts and input patterns', note=NUM + TRUST, rule='as C06'),
})
CHECKS.update({
 'C26': dict(harnesses=[H('sort')], technique=TECH % 'pivot vectors, vectors over a small alphabet with ties, directions, layouts and flags', note=EXACT + TRUST, rule='as C06'),
 'C29': dict(harnesses=[H('elem')], technique=TECH % 'vectors over an alphabet with zero, tiny and huge elements, shapes, sides, flags, layouts and workspaces', note=NUM + TRUST, rule='as C06'),
})
CHECKS.update({
 'C16': dict(harnesses=[H('svd')], technique=TECH % 'small-alphabet matrices and bidiagonals, shapes, wanted factors, algorithms, block sizes, workspaces, layouts and input patterns', note=NUM + 'Singular values are compared with a one-sided Jacobi iteration in long double. ' + TRUST, rule='as C06'),
})
CHECKS.update({
 'C17': dict(harnesses=[H('eig')], technique=TECH % 'small-alphabet symmetric and tridiagonal matrices, index and value ranges, secular problems, triangles, block sizes, workspaces, layouts and input patterns', note=NUM + 'Spectra are compared with a cyclic Jacobi iteration in long double; value ranges whose endpoint coincides with an eigenvalue of a non-diagonal matrix (within 1e-9) are skipped; the secular solver is used in its documented domain (distinct d, non-zero unit z, rho > 0). ' + TRUST, rule='as C06'),
})
CHECKS.update({
 'C28': dict(harnesses=[H('view')], technique=TECH % 'nested view operations with every argument, life-cycle operation sequences, workspace reservation sequences and pivot vector sequences', note='Every element reached through the public accessors is compared with an affine index model of the view, every write is compared with the whole buffer. Arguments outside the documented ranges (undefined) are not used. ' + TRUST, rule='as C06'),
})
CHECKS.update({
 'C20': dict(harnesses=[H('spcont')], technique=TECH % 'append sequences, sparsity patterns, storage kinds, capacities and chains of conversion, copy, transpose, sort and resize operations', note=EXACT + 'Entries with equal indexes are added up, as the arithmetic operations do. ' + TRUST, rule='as C06'),
})
CHECKS.update({
 'C21': dict(harnesses=[H('sparith')], technique=TECH % 'sparsity patterns, shapes, storage kinds, transposes, scalars, vector layouts and target capacities', note=EXACT + 'Entries with equal indexes are added up; results must be in index order. A target without room must be refused, not overrun. ' + TRUST, rule='as C06'),
})
CHECKS.update({
 'C22': dict(harnesses=[H('itersol')], technique=TECH % 'positive definite systems, all small integer matrices, solvers, preconditioners, stopping criteria, iteration limits, restart lengths and workspace forms, and all sparsity patterns for the incomplete factorisations', note=NUM + 'The true residual is recomputed from the returned solution; a success must meet the criterion, a failure must not. ' + TRUST, rule='as C06'),
})
CHECKS.update({
 'C18': dict(harnesses=[H('json')], technique=TECH % 'truncations, single and selected double character mutations of documents, stream kinds, failing character positions, allocation faults and round trips', note='Judged by an independent JSON recogniser; leading zeros, control characters in strings and very long tokens may be accepted or rejected. Compared to the number of digits written (14). ' + TRUST, rule='as C06'),
})
CHECKS.update({
 'C19': dict(harnesses=[H('mmio')], technique=TECH % 'truncations, single and double character mutations of MatrixMarket files, banner token products, shapes, kinds and sparsity patterns, value tables, failing character positions and allocation faults', note=EXACT + 'Judged by an independent reader of the format; blank lines, extra banner tokens, duplicate and upper-triangle entries, several values on a line of an array file and unusual number spellings may be accepted or rejected. ' + TRUST, rule='as C06'),
})
OPSN = 'Every row of one table of public dense operations (h/ops.inc: operand shapes, flags, preparation and call) is run; '
CHECKS.update({
 'C11': dict(harnesses=[H('ops11', 'ops.c', hflags=['-DFAM=11'])], technique=TECH % 'operations with a workspace form, flags, shapes, layouts, block sizes and workspace sizes', note=OPSN + 'the workspace has exactly the size under test with guard bytes behind it, the result is compared with the form which allocates its own, rejected calls must leave every operand unchanged. ' + TRUST, rule='as C06'),
 'C24': dict(harnesses=[H('ops24', 'ops.c', hflags=['-DFAM=24'])], technique=TECH % 'operations, flags and assignments of operand shapes (including missing operands)', note=OPSN + 'conforming shapes are decided by solving the shape rule of the operation; larger than needed auxiliary vectors, row-shaped tau vectors, missing pivots and empty operands may be accepted or rejected. ' + TRUST, rule='as C06'),
 'C31': dict(harnesses=[H('ops31', 'ops.c', hflags=['-DFAM=31'])], technique=TECH % 'operations, flags, shapes, layouts, blocking configurations and contents of surroundings and scratch memory', note=OPSN + 'each call is repeated with different content around the views, in unreferenced triangles, in workspaces and in fresh memory; outputs must be bit-identical and everything else unchanged. ' + TRUST, rule='as C06'),
 'C30': dict(harnesses=[H('ops30', 'ops.c', hflags=['-DFAM=30'])], technique=TECH % 'operations, flags, shapes and the full product of lists of blocking, cache, threshold, buffer and algorithm settings', note=OPSN + 'outputs are compared with those of the default configuration without blocking, exactly where the arithmetic is exact. ' + TRUST, rule='as C06'),
 'C05': dict(harnesses=[H('ops5', 'ops.c', hflags=['-DFAM=5']), H('alloc5'), H('accfault', 'acc_conc.c', hflags=['-DPROP=5'], **CONCX)], technique=TECH % 'operations, flags, shapes and failing allocation numbers', note=OPSN + 'every allocation made by a call is failed in turn. ' + TRUST, rule='as C06'),
})
CHECKS.update({
 'C25': dict(harnesses=[H('env', morewraps=['sysconf', 'pthread_setaffinity_np'])], technique=TECH % 'field values, pairs of fields, all short strings over an alphabet, processor counts', note='Every string is read by the library in a fresh process; the settings are compared with an independent reading of the string, the environment with its copy, and operations with exact results are run under the settings. ' + TRUST),
})
CHECKS.update({
 'C27': dict(harnesses=[H('compat')], technique=TECH % 'routines, storage orders, flag letters and enumerators, sizes from zero, increments of both signs, leading dimensions and scalars', note=EXACT + 'The expected content of every buffer, with gaps, guards and unreferenced triangles, comes from naive loops written from the reference BLAS. Invalid arguments and zero increments are not used. ' + TRUST, rule='as C06'),
})
CHECKS.update({
 'C23': dict(harnesses=[H('ext')], technique=TECH % 'operations, flags, shapes, layouts, blocking, scalars, workspaces and cancellation patterns', note='The exact value comes from 113-bit arithmetic (__float128); a result must be within a few units of the last place of it plus the error bound of twice the working precision. ' + TRUST, rule='as C06'),
})
CHECKS.update({
 'C32': dict(harnesses=[H('appthr', **CONCX), H('ops32', 'ops.c', hflags=['-DFAM=32'], **CONCX)], technique=CTECH, note=CNOTE, rule=CRULE),
})
# checks whose thorough bounds take seconds use them in the quick tier; their thorough tier then goes one level further
for _c in 'C06 C07 C08 C09 C10 C12 C13 C14 C15 C16 C17 C26 C29'.split(): CHECKS[_c]['lift'] = 1
