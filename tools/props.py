"""Writes properties.jsonl and MANIFEST.json.  Run after editing the table or the jobs in checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
P = []
def prop(id, title, statement, over, text, why, files, mech, level_note='', observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))
I, S, H, C = 'inputs', 'schedules', 'histories', 'configurations'

prop('C01', 'Matrix-vector products equal the mathematical product',
 'Multiplying a CSR or block-CSR matrix (owned or viewed, row- or column-major blocks, any block size offered) by a vector gives exactly A x, and the combined operation gives exactly a*A*x + b*y, also when the output is the same array as y. Rows without entries give zero (or b*y). Neither the matrix nor the input vectors change, and the reported dimension is the number of scalar rows.',
 [I, C], 'every sparsity pattern, every real matrix entry, vector entry and scalar; every block size and storage order the library instantiates; output aliased with y or not',
 'Tests multiply two or three stored matrices by one vector and compare with a stored result; empty rows, gemv with general coefficients, aliasing and most block-size/storage pairs are never exercised.',
 ['src/blas/matvecs.cpp', 'src/bsrmatrix.cpp', 'src/csrmatrix.cpp', 'src/blockmatrices.ipp'],
 [('BLAS_BSR::matrix_apply / gemv3', 'src/blas/matvecs.cpp'), ('BLAS_CSR::matrix_apply / gemv3', 'src/blas/matvecs.cpp'), ('BSRMatrixView, CSRMatrixView, BSRMatrix::apply', 'src/bsrmatrix.cpp, src/csrmatrix.cpp')])

prop('C02', 'Deterministic parallel operations give one result on every schedule',
 'Matrix-vector products, Jacobi, level-scheduled sweeps, format conversions, reorderings and the diagnostics are free of data races and give the sequential result for any number of threads and any interleaving. No two threads touch the same location without synchronisation unless both only read.',
 [S, I], 'every interleaving of up to three threads, every sparsity pattern and value within the bounds',
 'A test observes the one interleaving the machine happens to produce, on matrices where most rows are handled by a single thread.',
 ['src/blas/matvecs.cpp', 'src/solverops_jacobi.cpp', 'src/solverops_levels_sgs.cpp', 'src/helper_algorithms.cpp', 'src/scmatrix.cpp', 'src/reorderingscaling.cpp'],
 [('OpenMP worksharing loops with disjoint rows', 'src/blas/matvecs.cpp, src/solverops_jacobi.cpp'), ('barriers between levels', 'src/solverops_levels_sgs.cpp, src/solverops_levels_ilu0.cpp'), ('parallel prefix sum', 'src/helper_algorithms.cpp')])

prop('C03', 'Assembly operations act as the same operations on a dense matrix',
 'After any sequence of setting the structure, zeroing, zeroing the diagonal, submitting a dense block or row segment (overwriting), adding a block, adding to a diagonal block and scaling, an assembled sparse matrix holds exactly the values the same operations would leave in a dense matrix at its stored positions, and nothing outside the addressed entries changes. For the scalar matrix the diagonal queries (count of zero diagonals, product, absolute sum, smallest and largest magnitude, replacement of zero diagonals) agree with their definitions.',
 [H, I], 'every sequence of up to three assembly operations with any legal positions and values, on every pattern',
 'Tests never assemble through these operations; they are reached only by user code (for example a PDE solver), in an order and with positions no test samples.',
 ['src/blockmatrices.ipp', 'src/bsrmatrix.cpp', 'include/blockmatrices.hpp'],
 [('submitBlock, updateBlock, updateDiagBlock, setAllZero, setDiagZero, scaleAll', 'src/bsrmatrix.cpp'), ('getNumZeroDiagonals, getDiagonalProduct, getAbsMinDiagonalEntry ...', 'src/bsrmatrix.cpp')])

prop('C04', 'Matrix containers copy, move, wrap and release without corruption',
 'Copying a matrix or raw structure gives an equal, independent matrix; moving transfers the contents; wrapping external arrays reads and writes exactly those arrays and never frees them; owned storage is released exactly once. Two matrices of the same size compare equal in an aspect exactly when their data agree in it; a difference in size is reported as such.',
 [H, I, C], 'every pattern and content, every sequence of construct / copy / move / destroy within the bounds, every block size instantiated',
 'Double release, leaks and partially copied structures stay invisible in tests that build one matrix and exit; comparisons are never tested on differing matrices.',
 ['include/blockmatrices.hpp', 'include/arrayview.hpp', 'include/srmatrixdefs.hpp', 'src/rawsrmatrixutils.cpp', 'src/bsrmatrix.cpp'],
 [('ArrayView ownership flag', 'include/arrayview.hpp'), ('SRMatrixStorage, move_to_const, share_with_const', 'include/srmatrixdefs.hpp, src/rawsrmatrixutils.cpp'), ('copyRawBSRMatrix / alignedDestroyRawBSRMatrix', 'src/rawsrmatrixutils.cpp'), ('isEqual', 'src/bsrmatrix.cpp')])

prop('C05', 'Coordinate-format matrices convert to equivalent CSR and block-CSR matrices',
 'Converting a coordinate matrix to CSR or block CSR gives a structurally valid matrix (row starts consistent, columns ascending in each row, diagonal positions right) with exactly the same entries; a block is stored exactly when it contains an entry, its missing entries are zero, and its layout follows the requested storage order. (The reader requires an entry in every scalar row.)',
 [I, C], 'every set of entries within the bounds in any order of input, every value, block sizes 1 to 3, both storage orders',
 'Tests convert three stored matrices; which block-rows are empty, in which order entries arrive and how blocks interleave within a block row vary with the input file.',
 ['src/coomatrix.cpp', 'include/coomatrix.hpp'],
 [('readMatrixMarket (sort by row, then column)', 'src/coomatrix.cpp'), ('convertToCSR, convertToBSR', 'src/coomatrix.cpp'), ('getSRMatrixFromCOO', 'src/coomatrix.cpp')])

prop('C06', 'Column-oriented structures describe the same matrix as the row-oriented ones',
 'Converting block-CSR to block-CSC gives a valid structure with the same blocks at the same positions, rows ascending in each column and correct diagonal positions, independent of the number of threads. The column adjacency lists, for every column, exactly the rows with an entry in that column and where each entry is stored.',
 [I, S], 'every pattern and value within the bounds, one to three threads',
 'Tests convert stored matrices with structurally symmetric patterns on the machine\'s default thread count.',
 ['src/scmatrix.cpp', 'src/adjacency.cpp', 'src/adjacency.hpp', 'include/scmatrix.hpp'],
 [('convert_BSR_to_BSC', 'src/scmatrix.cpp'), ('ColumnAdjacency', 'src/adjacency.cpp')])

prop('C07', 'Triangular views present exactly the lower or upper triangle',
 'The lower (upper) triangular view of a matrix contains exactly the stored blocks on and below (above) the diagonal, sharing their values; multiplying by a view gives the product with that triangle, and releasing the view leaves the original matrix intact.',
 [I, C], 'every pattern with a full diagonal and every value within the bounds, all block sizes instantiated',
 'Tests compare one stored matrix; a product with a view is never tested.',
 ['src/rawsrmatrixutils.cpp', 'include/rawsrmatrixutils.hpp', 'src/blas/matvecs.cpp', 'include/srmatrixdefs.hpp'],
 [('getLowerTriangularView / getUpperTriangularView', 'src/rawsrmatrixutils.cpp'), ('row-end pointers', 'include/srmatrixdefs.hpp, src/blas/matvecs.cpp')])

prop('C08', 'Reordering and scaling equal the permutation and scaling they name',
 'Applying a row and/or column ordering to a matrix gives P A Q exactly (forward), in a valid structure with the right diagonal positions, and the inverse operation restores it; scaling multiplies row i and column j by their factors; ordering a vector by rows or columns is the same permutation, so that solving the reordered system and mapping back solves the original. Combined reordering and scaling apply in an order whose inverse direction undoes the forward one.',
 [I, H], 'every permutation of rows and columns, every scaling, pattern and value within the bounds; both directions',
 'Tests apply one stored permutation to one matrix; only some permutations are self-inverse and only some matrices expose a transposed direction.',
 ['src/reorderingscaling.cpp', 'include/reorderingscaling.hpp', 'src/bsrmatrix.cpp', 'src/solverops_ilu0.cpp'],
 [('Reordering::applyOrdering', 'src/reorderingscaling.cpp'), ('ReorderingScaling::applyScaling', 'src/reorderingscaling.cpp'), ('reordered ILU preconditioner', 'src/solverops_ilu0.cpp')])

prop('C09', 'Sorting, scan and search helpers compute what they say for every input',
 'Sorting a block row orders its column indices ascending and carries each block along; the inclusive scan and prefix sum return exact running totals for any length and any number of threads; the inner search finds the position of an index exactly when it is present.',
 [I, S], 'every length, content and thread count within the bounds',
 'Tests use one length and one thread count; uneven division of work among threads is never reached.',
 ['src/helper_algorithms.cpp', 'src/helper_algorithms.hpp', 'src/utils/prefix_sum.cpp', 'src/blas/blas1.cpp'],
 [('sortBlockInnerDimension', 'src/helper_algorithms.cpp'), ('inclusive_scan, prefix_sum', 'src/helper_algorithms.cpp'), ('inner_search', 'src/helper_algorithms.cpp')])

prop('C10', '(Block) Jacobi application and relaxation follow their definition',
 'Applying the (block) Jacobi preconditioner multiplies by the inverse of the diagonal (blocks); relaxation performs exactly the Jacobi iteration x <- D^-1 (b - (L+U) x), for the number of steps asked or, when tolerances are used, until the first step whose update norm meets the absolute, relative or divergence tolerance. The result is the same for any number of threads.',
 [I, S, C], 'every pattern with a full diagonal, every value, tolerance and step count within the bounds; scalar and block, both storage orders; one or two threads',
 'Solver tests only look at the convergence of a Krylov method, which survives a wrong preconditioner; relaxation with tolerances is not tested.',
 ['src/solverops_jacobi.cpp', 'include/solverops_jacobi.hpp', 'src/kernels/kernels_base.hpp'],
 [('JacobiSRPreconditioner, BJacobiSRPreconditioner', 'src/solverops_jacobi.cpp')])

prop('C11', 'Incomplete LU application solves with the exact zero-fill factors',
 'With one thread (any positive number of sweeps), or when the threaded options are switched off, building and applying the incomplete factorization solves L U z = r exactly, where L and U are the zero-fill incomplete factors of A; this holds for the scalar and block versions, any chunk size, any initial guess and with or without symmetric scaling.',
 [I, C], 'every pattern with a full diagonal and every value with regular pivots within the bounds; every initialisation, chunk size, storage order and number of sweeps',
 'Tests check that a Krylov solver converges; an inexact factorization still converges, only more slowly.',
 ['src/solverops_ilu0.cpp', 'src/async_ilu_factor.cpp', 'src/async_blockilu_factor.cpp', 'src/ilu_pattern.cpp', 'src/kernels/kernels_ilu0_factorize.hpp', 'src/kernels/kernels_ilu_apply.hpp'],
 [('scalar / block asynchronous factorization', 'src/async_ilu_factor.cpp, src/async_blockilu_factor.cpp'), ('position lists of the inner products', 'src/ilu_pattern.cpp'), ('triangular solves', 'src/solverops_ilu0.cpp')])

prop('C13', 'Exact factors and solutions are fixed points of the asynchronous sweeps',
 'Once an asynchronous factorization or triangular sweep has reached the exact incomplete factors or solution, no further sweep changes it, whatever the number of threads, the chunk size, the order in which rows are processed and however the threads interleave. Each thread reads only values that belong to the iteration or the input.',
 [S, I], 'every interleaving and assignment of rows to threads (all later stores are shown to write the value already there), every pattern and value within the bounds',
 'The tests run one schedule and stop at loose tolerances.',
 ['src/async_ilu_factor.cpp', 'src/async_blockilu_factor.cpp', 'src/solverops_ilu0.cpp', 'src/solverops_sgs.cpp', 'src/relaxation_chaotic.cpp'],
 [('asynchronous sweeps', 'src/async_ilu_factor.cpp, src/solverops_sgs.cpp')])

prop('C14', 'Symmetric Gauss-Seidel application and relaxation follow their definition',
 'Applying the preconditioner with one thread solves (D+L) D^-1 (D+U) z = r exactly, for any sweep count, chunk size and initial guess; with several threads that solution stays unchanged by further sweeps on any schedule. Relaxation performs forward then backward Gauss-Seidel iterations on one thread, and leaves an exact solution unchanged on any schedule.',
 [I, S, C], 'every pattern with a full diagonal and every value within the bounds; scalar and block, both storage orders; every interleaving for the fixed-point part',
 'Only the convergence of a Krylov solver is tested.',
 ['src/solverops_sgs.cpp', 'include/solverops_sgs.hpp', 'src/kernels/kernels_sgs.hpp'],
 [('AsyncSGS_SRPreconditioner, AsyncBlockSGS_SRPreconditioner', 'src/solverops_sgs.cpp')])

prop('C15', 'Level-scheduled operations are race-free and equal the sequential ones',
 'For a structurally symmetric matrix the computed levels partition the rows so that no row depends on another row of its level or of a later one, and the level-scheduled symmetric Gauss-Seidel and incomplete LU applications give exactly the sequential result on any number of threads, with no data race.',
 [S, I], 'every symmetric pattern with a full diagonal up to the bounds, every value, every interleaving of two or three threads',
 'Tests check the levels of one mesh and the convergence of one solve.',
 ['src/levelschedule.cpp', 'src/solverops_levels_sgs.cpp', 'src/solverops_levels_ilu0.cpp'],
 [('computeLevels', 'src/levelschedule.cpp'), ('level loops with barriers', 'src/solverops_levels_sgs.cpp, src/solverops_levels_ilu0.cpp')])

prop('C16', 'Chaotic relaxations follow their definition and keep exact solutions',
 'On one thread the chaotic (asynchronous Gauss-Seidel) relaxation performs exactly the requested number of in-order sweeps; started from an exact solution of A x = b it leaves it unchanged on any schedule and with any number of threads.',
 [I, S], 'every pattern with a full diagonal and every value within the bounds; every interleaving for the fixed-point part',
 'No test observes the iterate itself.',
 ['src/relaxation_chaotic.cpp', 'include/relaxation_chaotic.hpp'],
 [('ChaoticRelaxation, ChaoticBlockRelaxation', 'src/relaxation_chaotic.cpp')])

prop('C17', 'Column-oriented backward Gauss-Seidel solves with the upper triangle',
 'The column-oriented preconditioner solves (D+U) z = r exactly on one thread for a sweep in its natural order, for every pattern, chunk size and repetition of build and application, and refuses relaxation instead of computing something else.',
 [I, C], 'every pattern with a full diagonal and every value within the bounds',
 'Only convergence of a solver is tested.',
 ['src/solverops_sgs.cpp', 'src/scmatrix.cpp'],
 [('CSC_BGS_Preconditioner', 'src/solverops_sgs.cpp')])

prop('C18', 'The solver factory builds exactly the solver that was asked for',
 'Each documented solver name maps to its solver and every other name is rejected; the factory returns an object whose application is that of the requested solver with the requested block size, storage order, sweep counts, scaling and initialisation, and every unsupported combination is refused with an exception rather than a wrong solver.',
 [C, I], 'every solver kind, block size, storage order and option combination; every matrix within the bounds',
 'Tests construct a few combinations and only check that a solve converges, which almost any preconditioner achieves.',
 ['src/solverfactory.cpp', 'include/solverfactory.hpp', 'include/solvertypes.h'],
 [('SRFactory::create_preconditioner', 'src/solverfactory.cpp'), ('solverTypeFromString', 'src/solverfactory.cpp')])

prop('C19', 'Reported diagnostics equal their mathematical definitions',
 'The factorization remainder reported for an incomplete factorization is the norm of A minus the product of the factors over the pattern, and is zero for exact factors; the diagonal-dominance figures are the true averages and minima for the lower and upper factors; the largest-magnitude norm is the largest magnitude.',
 [I, C], 'every pattern and value within the bounds; scalar and block',
 'No test checks a diagnostic value.',
 ['src/matrix_properties.cpp', 'src/async_ilu_factor.cpp', 'src/async_blockilu_factor.cpp', 'src/solverops_ilu0.cpp'],
 [('ilu0 nonlinear residual', 'src/async_ilu_factor.cpp, src/async_blockilu_factor.cpp'), ('diagonal_dominance', 'src/matrix_properties.cpp')])

prop('C20', 'Recomputing and reapplying depends only on the current matrix values',
 'After the matrix values change in place and the preconditioner is recomputed, applications equal those of a freshly built preconditioner; applications can be repeated and interleaved with recomputation in any order, an application never depends on an earlier one, on the prior content of the output, or on other solver objects built, used or destroyed before or in between.',
 [H, I], 'every interleaving of up to three recomputations and applications, every pattern and value within the bounds, every preconditioner kind',
 'Tests compute once and apply within one solve.',
 ['src/solverops_jacobi.cpp', 'src/solverops_sgs.cpp', 'src/solverops_ilu0.cpp', 'src/solverops_levels_sgs.cpp', 'src/solverops_levels_ilu0.cpp'],
 [('compute() allocates once and refreshes', 'src/solverops_ilu0.cpp')])

prop('C21', 'No operation reads or writes outside its arrays, or reads unset memory',
 'Every public operation, on every valid input, accesses only elements inside the arrays it was given or owns, never branches on or stores results from uninitialised memory, releases everything it allocates, and terminates without an internal assertion failing.',
 [I, C, H], 'every pattern, value and configuration within the bounds of all other properties, with exactly sized allocations and an initialisation shadow',
 'Out-of-bounds reads of neighbouring heap data usually go unnoticed without instrumentation, and only specific patterns (an entry in the last row, an empty row) trigger them.',
 ['src/', 'include/'],
 [('index arithmetic in all kernels', 'src/kernels/')])

prop('C22', 'Approximate-inverse patterns and systems match the matrix',
 'For every row, the gathered least-squares system of the sparse approximate inverse (complete or incomplete) consists of exactly the matrix entries at the rows and columns its pattern names; the incomplete approximate inverse computed from it satisfies its local equations exactly (M A agrees with the identity at every position of its pattern).',
 [I], 'every pattern with a full diagonal within the bounds, every value with regular local systems',
 'Tests check one stored pattern.',
 ['src/sai.cpp', 'src/sai.hpp'],
 [('left_SAI_pattern, left_incomplete_SAI_pattern', 'src/sai.cpp'), ('compute_SAI: gather, solve, scatter', 'src/sai.cpp')])

prop('C23', 'Matrix Market files are read as the matrix they describe or rejected',
 'Reading a general real or integer coordinate file gives exactly the entries the file lists, sorted by row and column, with one-based indices shifted to zero-based, however many comment lines it has and in whatever order the entries are listed; a dense array file is read with its values in file order. A file that cannot be opened, is truncated, names an entry outside the matrix, or has a kind the reader does not support (complex, pattern, symmetric, skew-symmetric, hermitian coordinate files; complex or pattern arrays) is refused with an exception, never read as another matrix.',
 [I], 'every header variant and every entry list within the bounds in any order, any number of comment lines up to the bound',
 'Three fixed files are read by the tests, all in the general form.',
 ['src/coomatrix.cpp', 'include/coomatrix.hpp'],
 [('getMMDescription, getSizeFromMatrixMarket, readMatrixMarket', 'src/coomatrix.cpp')])

prop('C24', 'Building and applying solvers never modifies the matrix or the input vector',
 'No preconditioner or relaxation writes to the arrays of the matrix it was given, nor to the input vector of an application, in any configuration.',
 [I, C], 'every preconditioner kind and option, every pattern and value within the bounds',
 'Tests do not compare inputs before and after, and the arrays are shared with the caller\'s solver.',
 ['src/solverops_jacobi.cpp', 'src/solverops_sgs.cpp', 'src/solverops_ilu0.cpp', 'src/solverops_levels_sgs.cpp', 'src/solverops_levels_ilu0.cpp', 'src/relaxation_chaotic.cpp'],
 [('const views of the input', 'include/srmatrixdefs.hpp')])

prop('C25', 'PETSc options select the corresponding solver settings',
 'Within PETSc, the options for solver type, sweeps, thread chunk size, initialisation, scaling and diagnostics configure the preconditioner as documented (the value -1 for a sweep count asks for the sequential variant, where there is one), the preconditioner is built on the matrix the solver holds, a relaxation does the number of iterations asked for from the given or a zero guess, and a missing or wrong option or an unsupported request is reported.',
 [C], 'every combination of option values, sweep counts and chunk sizes; every option missing or misspelt',
 'The PETSc parts are exercised only by integration tests with fixed option files, which need PETSc.',
 ['src/blasted_petsc.cpp', 'include/blasted_petsc.h', 'include/async_initialization_decl.hpp', 'src/solverfactory.cpp'], [('option parsing', 'src/blasted_petsc.cpp'), ('factory', 'src/solverfactory.cpp')])

prop('C27', 'Every shell solver in a PETSc solver tree gets its own BLASTed solver',
 'Setting up a PETSc solver tree (block Jacobi, additive Schwarz, multigrid, nested KSP) gives every shell preconditioner in it a context of its own, made by the factory the caller supplied; setting up, applying and relaxing through PETSc equal doing so directly, set-up follows changed matrix values, relaxation is offered exactly by the methods that have it, total times are the sums over the contexts, unsupported matrices are refused, and destruction frees everything.',
 [C, H], 'every shape of solver tree, every matrix and vector value within the bounds',
 'The PETSc parts are exercised only by integration tests with one solver tree, which need PETSc.',
 ['src/blasted_petsc.cpp', 'include/blasted_petsc.h', 'include/blasted_petsc_ext.hpp'], [('solver tree set-up', 'src/blasted_petsc.cpp'), ('external interface', 'include/blasted_petsc_ext.hpp')])

prop('C26', 'Asynchronous sweeps converge to the exact factors as sweeps grow',
 'For matrices in the class covered by the theory, the factorization and solution errors tend to zero as the number of asynchronous sweeps grows, on any fair schedule, in floating-point arithmetic to round-off.',
 [S, I], 'all fair infinite schedules and all floating-point inputs',
 'It is a limit statement.',
 ['src/async_ilu_factor.cpp', 'src/solverops_sgs.cpp'], [('asynchronous iteration', 'src/async_ilu_factor.cpp')])

NA = {
 'C26': 'A limit over infinitely many sweeps in floating point has no bounded form a solver can decide; the decidable part (exactness on one thread, fixed points on every schedule) is claimed by C11, C13, C14 and C16.',
}
def main():
    import checks
    order = sorted(P, key=lambda p: p['id'])
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in order:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
    na = dict(NA)
    ids = [p['id'] for p in order]
    for i in checks.PROPS: assert i in ids, i
    for i in ids:
        if i not in checks.PROPS and i not in na: na[i] = 'Not claimed yet: the harness for it is still being built.'
    m = {'version': 1, 'setup_cmd': 'python3 check.py --build-only', 'hooks': {'guard': 'BLASTED_VERIF', 'enable': 'not used: the checks need no hooks in the sources', 'source_commits': []},
     'checks': [{'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
       'technique': 'symbolic execution of the LLVM IR of the real code with SMT (z3) deciding every assertion' + checks.PROPS[i].get('tech', ''), 'level': 'model_checking',
       'level_note': checks.PROPS[i].get('note', 'Bounded: all values over the reals (not floating point), all patterns within the listed sizes. Trusts clang -O1 front end, the executor and z3; sampled paths are replayed natively.')} for i in ids if i in checks.PROPS],
     'not_applicable': [{'property': i, 'reason': na[i]} for i in ids if i in na]}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
main()
