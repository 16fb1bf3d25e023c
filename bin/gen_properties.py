#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property list)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe)))
D='fflas-ffpack/fflas/'; K='fflas-ffpack/ffpack/'
prop('C01','Dense matrix product is exact for every shape, flag, scalar and algorithm',
 "For every supported coefficient ring, every shape (including empty and one-wide), every transposition pair, scalars alpha (nonzero) and beta, and leading dimensions, matrix product by the classical algorithm or by Strassen-Winograd with any number of recursion levels, and matrix squaring, leave in the output exactly beta*C + alpha*op(A)*op(B) as canonical ring elements. The operands A and B and every storage location outside the m-by-n output window are left unchanged.",
 ['inputs','configurations'],"all rings, m,n,k>=0, trans pairs, alpha/beta classes {1,-1,0,other}, ld >= minimum, recursion levels, algorithm helpers",
 "test-fgemm samples a few random sizes with the default thresholds and random alpha/beta and contiguous or few leading dimensions; schedules for odd dimensions, deep recursion, alpha/beta special cases and the memory outside the window are not settled by sampling.",
 [D+'fflas_fgemm.inl',D+'fflas_fgemm/',D+'fflas_igemm/',D+'fflas_helpers.inl'],
 [('fgemm entry points and helper dispatch',D+'fflas_fgemm.inl'),('Winograd schedules with peeling',D+'fflas_fgemm/fgemm_winograd.inl'),('schedules for beta=0 and accumulation',D+'fflas_fgemm/schedule_winograd*.inl'),('classical block product',D+'fflas_fgemm/fgemm_classical.inl'),('fsquare',D+'fflas_fgemm.inl')],
 ['return of the product call: C, A, B and surrounding storage'])
prop('C02','Delayed reduction never loses exactness, up to the largest modulus',
 "For every modulus up to the largest one a ring type advertises and for every inner dimension, the floating point and machine-integer kernels postpone modular reductions only as long as every intermediate value stays exactly representable. Hence inner products, matrix-vector and matrix-matrix products, rank-1/rank-k updates, triangular products and solves and eliminations on worst-case data (all entries of maximal magnitude) give the exact modular result in canonical form.",
 ['inputs','configurations'],"all moduli 2..max per ring type, all inner dimensions (around and beyond the accumulation limits), worst-case and random data, scalars, fast and classical products",
 "Random data keeps accumulated sums far from the representable limit, so a bound that is too large by a small factor passes; only adversarial maximal data with lengths just around the limit manifests it.",
 [D+'fflas_bounds.inl',D+'fflas_helpers.inl',D+'fflas_fdot.inl',D+'fflas_fgemv.inl',D+'fflas_ftrsm_src.inl',D+'fflas_ftrmm_src.inl',D+'fflas_fgemm/'],
 [('accumulation bounds',D+'fflas_bounds.inl'),('bound propagation in helpers',D+'fflas_helpers.inl'),('splitting of the inner dimension',D+'fflas_fgemm/fgemm_classical.inl')],
 ['output of each kernel'])
prop('C03','Element-wise and data-movement kernels match their definition lane by lane',
 "Element-wise operations on vectors and matrices (assign, zero, identity, negate, reduce, convert to/from the ring, add, subtract, scaled add, scale, linear combination, inner product, swap, comparison, transposition in and out of place) compute exactly their per-entry definition for every length, stride, leading dimension, alignment and scalar, in every ring whose scalar operations allow the operands to coincide. They return canonical representatives and modify nothing but the addressed output entries.",
 ['inputs','configurations'],"all lengths/shapes (vector-width multiples and remainders), increments, leading dimensions, aliasing of output with an input where allowed, alignment, scalars 0/1/-1/other, all rings",
 "Tests exercise a few large sizes at unit stride; remainders, strided paths, unaligned starts, special scalars and out-of-window writes are not systematically reached.",
 [D+'fflas_level1.inl',D+'fflas_fadd.inl',D+'fflas_fscal.inl',D+'fflas_faxpy.inl',D+'fflas_fdot.inl',D+'fflas_freduce.inl',D+'fflas_fassign.inl',D+'fflas_transpose.h'],
 [('vectorised add/sub',D+'fflas_fadd.inl'),('vectorised scaling',D+'fflas_fscal.inl'),('vectorised reduction',D+'fflas_freduce.inl'),('blocked transposition',D+'fflas_transpose.h')],
 ['output buffers and return value'])
prop('C04','Matrix-vector kernels compute the exact result for every flag and stride',
 "Matrix-vector product, rank-one update, triangular matrix-vector product and triangular vector solve return exactly their mathematical definition over the ring for every shape, transposition, triangle, diagonal kind, scalar, vector increment and leading dimension. Triangular routines neither depend on nor modify the opposite triangle, nor on stored diagonal entries when the diagonal is declared unit, and nothing outside the output vector or matrix window changes.",
 ['inputs','configurations'],"all shapes incl. empty, flags, increments, leading dimensions, scalars, rings",
 "Existing tests use few sizes and mostly unit increments with zero-filled opposite triangles.",
 [D+'fflas_fgemv.inl',D+'fflas_fger.inl',D+'fflas_ftrsv.inl',D+'fflas_level2.inl',D+'fflas_fgemv_mp.inl',D+'fflas_fger_mp.inl'],
 [('fgemv',D+'fflas_fgemv.inl'),('fger',D+'fflas_fger.inl'),('ftrsv/ftrmv',D+'fflas_ftrsv.inl')],['output vector / matrix'])
prop('C05','Triangular products, solves and inverses are exact for every flag combination',
 "For all 16 side/triangle/transposition/diagonal combinations, triangular matrix product (in place and accumulating), triangular system solving, triangular inversion, triangular-by-triangular product and triangular solve with a triangular right-hand side give exactly the algebraic result over the ring, for every shape, leading dimension, recursion threshold and nonzero scalar. The opposite triangle, and the stored diagonal when declared unit, neither influence the result nor are modified.",
 ['inputs','configurations'],"all flags, shapes 0..beyond the blocking thresholds, leading dimensions, alpha, rings, junk in unreferenced storage",
 "Each of the many generated specialisations has its own block-splitting code; tests run a few random sizes per flag and keep the unreferenced triangle benign.",
 [D+'fflas_ftrsm.inl',D+'fflas_ftrsm_src.inl',D+'fflas_ftrmm.inl',D+'fflas_ftrmm_src.inl',K+'ffpack_ftrtr.inl',K+'ffpack_ftrstr.inl',K+'ffpack_ftrssyr2k.inl'],
 [('ftrsm specialisations',D+'fflas_ftrsm_src.inl'),('ftrmm specialisations',D+'fflas_ftrmm_src.inl'),('triangular inverse and product',K+'ffpack_ftrtr.inl'),('ftrstr / ftrssyr2k',K+'ffpack_ftrstr.inl')],['output window'])
prop('C06','Symmetric rank updates and symmetric factorisations are exact on one triangle',
 "Symmetric rank-k and rank-2k updates (plain, with a diagonal or block-diagonal scaling, by classical or Strassen-like recursion) write into the requested triangle exactly the corresponding triangle of the algebraic result. Symmetric triangular factorisation returns success exactly when the factorisation without pivoting exists (all leading principal minors nonzero), and then the returned factors reproduce the input; only the requested triangle is read or written.",
 ['inputs','configurations'],"all shapes, triangles, transpositions, scalars, diagonal/block patterns, thresholds, rings, generic and non generic rank profile inputs",
 "Tests check random sizes and random generic matrices on a few fields.",
 [D+'fflas_fsyrk.inl',D+'fflas_fsyrk_strassen.inl',D+'fflas_fsyr2k.inl',K+'ffpack_fsytrf.inl'],
 [('fsyrk variants',D+'fflas_fsyrk.inl'),('Strassen fsyrk',D+'fflas_fsyrk_strassen.inl'),('fsytrf',K+'ffpack_fsytrf.inl')],['requested triangle of C / A, return value'])
prop('C07','PLUQ and LU-type decompositions reproduce the input with the true rank',
 "For every input matrix of any shape, rank and rank profile, every triangular elimination variant returns the exact rank, valid permutations, and triangular/echelon factors stored in place whose product with the permutations is exactly the input matrix. The result is correct for either choice of the unit-diagonal factor, for the transposed and row/column variants, and for any base-case threshold or leading dimension.",
 ['inputs','configurations'],"all m,n, ranks, rank profiles (generic, adversarial, zero rows/columns), diag and transposition flags, recursive and base-case variants, cutoffs, rings",
 "Tests check random matrices with random rank profile at default thresholds.",
 [K+'ffpack_pluq.inl',K+'ffpack_ludivine.inl',K+'ffpack_pluq_mp.inl',K+'ffpack_ludivine_mp.inl',K+'ffpack_permutation.inl'],
 [('recursive PLUQ',K+'ffpack_pluq.inl'),('LUdivine',K+'ffpack_ludivine.inl'),('LTBruhat/Crout base cases',K+'ffpack_pluq.inl')],['A, P, Q, returned rank'])
prop('C08','Rank profiles and the rank profile matrix are the true ones',
 "The row rank profile, column rank profile, rank profile matrix and the profiles of every leading submatrix extracted from an elimination, and the selected full-rank row/column submatrices, are exactly those defined by the input matrix (lexicographically minimal independent rows and columns). This holds for every elimination variant offered, and the returned index lists have length equal to the rank and are strictly increasing.",
 ['inputs'],"all matrices: all shapes, ranks, rank profile matrices; all leading submatrix sizes; both elimination variants",
 "Tests sample a few random rank profiles; the lexicographic minimality is about all sub-collections.",
 [K+'ffpack_rankprofiles.inl',K+'ffpack_pluq.inl',K+'ffpack_ludivine.inl'],
 [('rank profile routines',K+'ffpack_rankprofiles.inl')],['returned profiles and submatrices'])
prop('C09','Echelon and reduced echelon forms are correct and come with their transform',
 "Column/row echelon and reduced echelon computation returns the exact rank, the pivots at the true rank profile, an echelon form with the same column (row) space, the unique reduced form where reduced is asked, and, when the transformation is requested, an invertible transform that maps the input to the form exactly. All elimination algorithms offered for it and the extraction helpers (in place and out of place) agree with this.",
 ['inputs','configurations'],"all shapes, ranks, rank profiles, with/without transform, each algorithm tag, leading dimensions, rings",
 "Tests sample random matrices; in-place packed storage and extraction are index-heavy code whose corner cases (rank 0, full rank, wide/tall) are rarely hit.",
 [K+'ffpack_echelonforms.inl',K+'ffpack.h',K+'ffpack_ludivine.inl'],[('echelon forms',K+'ffpack_echelonforms.inl')],['A, P, Q, rank and extracted forms'])
prop('C10','Rank, determinant, singularity test and inverse are exact on every matrix',
 "For every matrix, the computed rank, determinant, singularity verdict and inverse are exactly the algebraic ones over the field; inversion reports a positive nullity exactly for singular matrices and otherwise its output times the input is the identity. Where the input is documented as preserved it is preserved, and the result does not depend on leading dimensions.",
 ['inputs','configurations'],"all shapes and ranks incl. 0x0, singular by one, permutation-like matrices (sign of the determinant), leading dimensions, rings, modulus 2..max",
 "Tests sample random matrices; determinant sign depends on all permutation cycles and singular-by-one inputs are rare.",
 [K+'ffpack.inl',K+'ffpack.h',K+'ffpack_invert.inl',K+'ffpack_det_mp.inl'],[('Invert/Invert2',K+'ffpack_invert.inl'),('Rank/Det/IsSingular',K+'ffpack.inl')],['return values, outputs, input preservation'])
prop('C11','Linear system solving and nullspaces are correct, including singular systems',
 "For every matrix and right-hand side, on either side, solving reports inconsistency exactly when no solution exists and otherwise returns an exact solution; this holds for square and rectangular, full-rank and rank-deficient systems and for multiple right-hand sides. Nullspace computation returns a basis of the full left/right kernel with dimension equal to the nullity, and the sampled nullspace vector lies in the kernel.",
 ['inputs','configurations'],"all shapes, ranks, consistent and inconsistent right-hand sides, both sides, in-place and out-of-place, leading dimensions, rings",
 "Consistency depends on the rank relation between matrix and augmented matrix; tests use mostly consistent random systems.",
 [K+'ffpack_fgesv.inl',K+'ffpack_fgetrs.inl',K+'ffpack.inl',K+'ffpack.h'],[('fgesv/fgetrs',K+'ffpack_fgesv.inl'),('Solve, NullSpaceBasis',K+'ffpack.inl')],['X/B, info flag, basis'])
prop('C12','Characteristic and minimal polynomials are exact for every algorithm',
 "For every square matrix, each characteristic polynomial algorithm returns the exact monic characteristic polynomial (or a factorisation with that product), and the minimal polynomial routine returns exactly the monic minimal polynomial of the matrix or of the matrix and vector. This includes nilpotent, derogatory, block, companion, scalar, zero and random matrices at every size and modulus for which the algorithm is advertised.",
 ['inputs','configurations'],"all square matrices, algorithm tags, sizes 0..n, rings, leading dimension",
 "Random matrices are almost always cyclic; derogatory structures take different code paths.",
 [K+'ffpack_charpoly.inl',K+'ffpack_charpoly_danilevski.inl',K+'ffpack_charpoly_kglu.inl',K+'ffpack_charpoly_kgfast.inl',K+'ffpack_charpoly_kgfastgeneralized.inl',K+'ffpack_frobenius.inl',K+'ffpack_minpoly.inl',K+'ffpack_krylovelim.inl'],
 [('CharPoly dispatch',K+'ffpack_charpoly.inl'),('ArithProg / Frobenius',K+'ffpack_frobenius.inl'),('MinPoly',K+'ffpack_minpoly.inl')],['returned polynomial'])
prop('C13','Permutation encodings, conversions and applications are mutually consistent',
 "Transposition-sequence and explicit permutation encodings convert to one another without changing the permutation they denote; applying a permutation (full, partial range, from either side, transposed, with block/compressed or rank-monotonic variants) to a matrix moves rows or columns exactly as the denoted permutation prescribes. Composition and cyclic shift helpers equal the product of the permutations, and no entry is lost, duplicated or moved outside the window.",
 ['inputs'],"all permutations and all transposition sequences, sides, transposition flags, sub-ranges, leading dimensions",
 "Number of permutations is factorial; tests sample few and mostly full ranges.",
 [K+'ffpack_permutation.inl'],[('applyP, LAPACKPerm2MathPerm, ...',K+'ffpack_permutation.inl')],['permuted matrix, converted permutation'])
prop('C14','Parallel execution gives the sequential result under every schedule',
 "For every number of threads, cutting strategy, and every order in which the runtime may execute ready tasks, the parallel matrix product, matrix-vector product, triangular solve, elimination and derived routines terminate and return exactly a result that is valid for the sequential routine on the same input (identical wherever it is unique). No task starts before the tasks that produce data it reads or overwrites have finished.",
 ['schedules','configurations','inputs'],"all dependency-respecting task orders, thread counts, cutting strategies and shapes, both synchronisation modes",
 "A missing dependency or synchronisation shows up only under specific interleavings; tests run on one machine's default schedule.",
 [D+'fflas_pfgemm.inl',D+'fflas_pftrsm.inl',K+'ffpack_ppluq.inl','fflas-ffpack/paladin/'],
 [('parallel product variants','fflas-ffpack/paladin/pfgemm_variants.inl'),('parallel ftrsm',D+'fflas_pftrsm.inl'),('parallel PLUQ',K+'ffpack_ppluq.inl'),('task macros','fflas-ffpack/paladin/parallel.h')],['result after the parallel region, order of task execution'])
prop('C15','Work splitting covers every index exactly once',
 "For every iteration space (one- and two-dimensional, including empty), every cutting strategy and parameter, and every thread or grain count, iterating the splitter visits blocks that are pairwise disjoint, in range, and whose union is exactly the space. The announced number of blocks equals the number visited.",
 ['inputs','configurations'],"all sizes m,n, all strategy/parameter pairs, all thread/grain numbers",
 "Tests use a few sizes for some strategies only.",
 ['fflas-ffpack/paladin/blockcuts.inl','fflas-ffpack/paladin/parallel.h'],[('ForStrategy1D/2D, SPLITTER','fflas-ffpack/paladin/blockcuts.inl')],['sequence of (begin,end) blocks'])
prop('C16','Multiprecision linear algebra is exact for integers and large moduli',
 "Over arbitrary-precision integers and over moduli larger than a machine word, the residue-number-system conversions round-trip exactly within their advertised range (including negative values), and products, matrix-vector products, triangular solves and products, eliminations, determinants and characteristic polynomials return exactly the integer or modular result for operands of any and of unequal bit sizes.",
 ['inputs','configurations'],"all bit sizes, signs, moduli, shapes, scalars, leading dimensions",
 "Correctness depends on a basis large enough for the worst-case magnitude; random entries seldom reach it, and mixed sizes are not sampled.",
 ['fflas-ffpack/field/',D+'fflas_fgemm/fgemm_classical_mp.inl',D+'fflas_ftrsm_mp.inl',K+'ffpack_pluq_mp.inl',K+'ffpack_det_mp.inl'],
 [('RNS conversions','fflas-ffpack/field/rns-double.inl'),('multiprecision product',D+'fflas_fgemm/fgemm_classical_mp.inl')],['result values'])
prop('C17','Every sparse format multiplies like the dense matrix it represents',
 "For every sparse matrix (any pattern, empty rows, values including +-1), each of the storage formats CSR, COO, ELL, CSR_HYB, HYB_ZO, CSR_ZO and COO_ZO built from row-sorted coordinate triples represents the same matrix, and sparse matrix-vector and sparse matrix-dense-matrix products in that format equal beta*Y + A*X over the ring, whatever the leading dimensions and beta. Operands and storage outside the output window are unchanged.",
 ['inputs','configurations'],"all formats, patterns, shapes, beta, block widths, leading dimensions, rings and moduli",
 "The existing sparse test covers few formats with one matrix pattern.",
 [D+'fflas_sparse.h',D+'fflas_sparse.inl',D+'fflas_sparse/'],[('format constructors and kernels',D+'fflas_sparse/')],['y / Y'])
prop('C18','The C interface and compiled library agree with the generic templates',
 "Every routine exported by the C interface and by the precompiled instantiations denotes the same mathematical operation as the template routine of the same name: same result (exact, canonical for the modulus passed), same permutations and return value, for every flag value and both signed and positive representatives. Flag values passed across the language boundary keep their meaning.",
 ['inputs','configurations'],"all exported functions, flags, moduli, representatives, shapes, strides",
 "The C test links and calls a handful of functions once.",
 ['fflas-ffpack/interfaces/libs/'],[('C wrappers','fflas-ffpack/interfaces/libs/'),],['result buffers and return values'])
prop('C19','Matrix files round-trip',
 "Writing a matrix in the dense, SMS or binary format and reading it back, with the format given or (for the SMS and binary formats) detected, returns exactly the same dimensions and entries for every ring (for the binary format: rings whose elements are plain data), including negative representatives, large entries, sparse and empty matrices, both storage orders and sub-matrices with a leading dimension larger than the width. The formats meant for display and for other systems (mathematical, Maple, SageMath) show every entry exactly, in its place.",
 ['inputs','configurations'],"all matrices, formats, rings, leading dimensions",
 "The I/O test writes one kind of random matrix with contiguous storage.",
 ['fflas-ffpack/utils/fflas_io.h','fflas-ffpack/utils/Matio.h'],[('WriteMatrix/ReadMatrix','fflas-ffpack/utils/fflas_io.h')],['matrix returned by the reader'])
prop('C20','Quasi-separable generators represent the matrix and multiply exactly',
 "Compressing a matrix whose leading (or off-diagonal) blocks have bounded rank into its compact generators (Bruhat or sequentially semi-separable) and expanding it back returns exactly the same matrix, with the same quasi-separability order. Products of the compact representation with a dense matrix equal the dense product.",
 ['inputs'],"all matrices, orders of quasi-separability, block sizes, widths, alpha/beta",
 "Tests sample random matrices of one shape.",
 [K+'ffpack_bruhatgen.inl',K+'ffpack_sss.inl'],[('Bruhat generator',K+'ffpack_bruhatgen.inl'),('SSS generator',K+'ffpack_sss.inl')],['expanded matrix, product'])
prop('C21','Certificates accept every correct result and reject wrong ones',
 "The result checkers for product, triangular solve, inversion, elimination, determinant and characteristic polynomial always accept a correct result, for every shape and parameter. They reject an incorrect result except with the probability of a random evaluation hitting a root, so over a large field a corrupted result is rejected.",
 ['inputs','fault_sequences'],"all inputs and parameters; all single and multiple corruptions of the output (over large fields, repeated trials)",
 "Tests only run checkers on correct computations for a few sizes.",
 ['fflas-ffpack/checkers/'],[('checkers','fflas-ffpack/checkers/'),('Freivalds',D+'fflas_freivalds.inl')],['accept/reject outcome'])
prop('C22','Random generators produce matrices with the promised structure',
 "Generators of random matrices with a prescribed rank, rank profile, rank profile matrix, determinant, triangular, symmetric or quasi-separable structure always return a matrix with exactly that structure, for every feasible parameter and every seed, in canonical form within the given window. Generators of index sets and permutations return sorted distinct indices in range and valid permutations.",
 ['inputs','configurations'],"all shapes, ranks, profiles, seeds, leading dimensions, rings",
 "Tests use generators as inputs and never check their promise.",
 ['fflas-ffpack/utils/fflas_randommatrix.h'],[('RandomMatrixWithRank...','fflas-ffpack/utils/fflas_randommatrix.h')],['generated matrix'])
prop('C23','Vector-instruction wrappers compute their lane-wise definition',
 "Each portable vector operation (loads, stores, set, arithmetic, high/low multiplication, fused multiply-add, shifts, comparisons, logical, blends, shuffles, unpack/pack/transposition, rounding) of the 128 and 256 bit wrappers, on each element type (float, double, signed and unsigned 16/32/64 bit integers), equals the corresponding scalar operation applied lane by lane, for all operand bit patterns in its domain; stores write exactly one register.",
 ['inputs','configurations'],"all lane values incl. extreme and negative values, element types, widths, immediate parameters",
 "Tests compare a few random inputs.",
 [D+'fflas_simd/',D+'fflas_simd.h'],[('Simd128/256/512 wrappers',D+'fflas_simd/')],['result vectors'])
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(p)+'\n' for p in P))
print(len(P))
