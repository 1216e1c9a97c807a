#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here, in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

MX = "src/matrix.rs"
rep = ("Matrix { no_rows, data }", "row-major values; the column count is derived as data.len() / no_rows", MX)

p("C01", "Constructors build exactly the described matrix, or refuse",
  "Every constructor (new, vector, row_vector, id, zero, diag, block_diag, zero_vector, one_vector, random and the m! literal) returns a matrix of exactly the requested shape, whose element in row i and column j is the one the constructor describes (row-major data, ones or the given data on the main diagonal, zeros elsewhere). "
  "Arguments that describe no matrix (data length different from rows*columns, a zero dimension, empty data, a diagonal of the wrong length, literal rows of different lengths) are refused with a panic and never produce a matrix.",
  ["inputs"], "all shapes up to a bound (and a set of large ones), all data lengths around rows*columns, all literal row patterns up to a bound",
  "The tests build 2x2/2x3/3x2 matrices and reject one bad length; they never vary the shape, and a wrong stride or a missing check shows only on other shapes.",
  [MX, "src/macros.rs"], [("assertions and index arithmetic of the constructors", MX), ("m!/m_rec!/m_one! expansion", "src/macros.rs")],
  ["rows, cols, get, get_data of the constructed matrix", "panic of the call"], [rep])

p("C02", "Reads return the last value written; out-of-range access is refused",
  "For every matrix, get, get_ref, indexing by (row, col) and the row-major get_data all show the same value for a position, namely the one last written to it by set, get_mref or get_mut_data, and a write changes no other position and not the shape. "
  "A row or column outside the matrix is refused with a panic by every accessor, also when row*columns+column would fall inside the storage, and the refused call changes nothing.",
  ["inputs", "histories"], "all shapes up to a bound and all positions in and around them; all write histories over a finite field (fixpoint) and all short access histories",
  "The tests read and write four positions of one 2x2 matrix; aliasing of a wrong position or a half-checked index needs other shapes, positions and orders of writes.",
  [MX], [("bounds assertions", "get, set, get_ref, get_mref in " + MX), ("row * cols + col addressing", MX)],
  ["get, get_ref, Index, get_data, set, get_mref, get_mut_data"], [rep])

p("C03", "Structural operations move every element to its defined place",
  "Transposition (t, mt), minor, sub_matrix (half-open ranges), get_column, concatenation (cr and |, cb), permute_rows/columns, filter_rows/columns and select_rows/columns return the matrix of the defined shape in which every element is exactly the defined element of the source, in source order for filters and selections; filter predicates are asked for each index of the source. "
  "Arguments that name elements outside the matrix or mismatched shapes are refused with a panic, and the sources are never changed.",
  ["inputs"], "all shapes up to a bound, all ranges, all index lists and selectors up to a bound, in and out of range, non-empty results",
  "Each operation is tested on one or two matrices of at most 4x4; wrong strides, wrong cycle following in the in-place transpose and off-by-one limits depend on the particular shape and range.",
  [MX], [("index arithmetic of each operation", MX), ("cycle-following in-place transpose", "mt in " + MX)],
  ["shape and elements of the result", "panic of the call", "the source after the call"], [rep])

p("C04", "Element-wise arithmetic is the scalar operation at every position",
  "Addition, subtraction, negation, scaling, element-wise multiplication and division and map/mmap produce, at every position, exactly the scalar result of the corresponding operand elements in operand order (factor * element for scaling), whatever ownership form of the operator is used; map and mmap call their function exactly once per element, and reduce folds every column from its initial value in row order. "
  "Operands of different shapes are refused with a panic and borrowed operands are never changed.",
  ["inputs"], "all shapes up to a bound, all value pairs of an alphabet with special floats at every position, all pairs of shapes",
  "The tests check one 2x2 pair per operation; an operator that is wrong for one ownership form, for a special value, or beyond some size passes them.",
  [MX], [("element loops", MX), ("operator implementations for the four ownership forms", MX)],
  ["result of each operation", "operands after the call", "panic of the call"], [rep])

p("C05", "Matrix product is the exact row-by-column sum for every shape",
  "For conforming operands, * in every ownership form and mmul yield the rows-by-columns matrix whose (i,j) element is the sum over k of a(i,k)*b(k,j), with the factors in that order and every product included, also when elements are zero, one, infinite or NaN. "
  "Operands whose inner dimensions differ are refused with a panic, and borrowed operands are never changed.",
  ["inputs"], "all conforming shapes up to a bound over symbolic entries (so for all ring values), all alphabet-valued small operands, special float values, non-conforming shapes, large shapes",
  "One 2x2*2x2 and one 2x3*3x2 product are tested; shape-dependent addressing and value shortcuts are not reachable from them.",
  [MX], [("triple loop", "Mul and mmul in " + MX)], ["result of *, mmul", "operands after the call", "panic of the call"], [rep])

p("C06", "In-place and copying forms agree through every history of operations",
  "Starting from any matrix, after any sequence of in-place operations (mneg, mscale, madd, msub, melem_mul, melem_div, mmul, mt, mmap, set, writes through references), refused calls included, the matrix equals in shape and in every element the one obtained by the corresponding copying operations on a fresh matrix. "
  "Clones and results obtained earlier are independent: later in-place operations on one matrix never show in another.",
  ["histories"], "all operation histories: breadth-first to a fixpoint over a finite field for small shapes (so all lengths), stateless depth-first over a live object and its clones up to a depth",
  "The tests apply each in-place operation once to a fresh matrix; nothing checks an in-place result that is used by further operations, or the independence of clones.",
  [MX], [("in-place loops and the replaced data vector of mmul", MX), ("derived Clone", MX)],
  ["rows, cols, get, get_data after every step"], [rep])

p("C07", "LU factors reproduce the row-permuted matrix with unit L and partial pivoting",
  "For every non-empty finite matrix of moderate scale (products of its entries neither overflowing nor underflowing), square, tall or wide, get_l is unit lower trapezoidal with all multipliers at most 1 in magnitude, get_u is upper trapezoidal, get_piv is a permutation with get_p its permutation matrix, and L*U equals the matrix with rows taken in get_piv order, to a small multiple of working precision (exactly in exact arithmetic). "
  "The argument of the decomposition is not changed.",
  ["inputs"], "all matrices of small shapes over alphabets in exact rationals and in f64, structured and permutation matrices up to a size bound",
  "Three fixed matrices are factored; pivoting order, singular columns and wide shapes have many value-dependent paths that those do not take.",
  ["src/decomp/lu.rs"], [("Doolittle elimination with row exchange", "LUDecomposition::new"), ("packed L/U extraction", "get_l, get_u, get_p")],
  ["get_l, get_u, get_p, get_piv"], [("lu, piv, pospivsign", "packed factors, row order and its sign", "src/decomp/lu.rs")])

p("C08", "Determinant and singularity tests are those of linear algebra",
  "For square matrices of moderate scale (products of its entries neither overflowing nor underflowing), det (of the matrix and of its LU decomposition) is the determinant, exactly in exact arithmetic and to working precision in floating point, and is_singular and is_non_singular are opposite and tell exactly whether the determinant is zero, exactly in exact arithmetic (for triangular and row-permuted triangular matrices by their diagonal, also where the product itself leaves the range). "
  "Non-square matrices are refused by det and by the matrix's singularity tests with a panic.",
  ["inputs"], "all square matrices up to a size over small alphabets in exact rationals, all permutation matrices, structured families in f64 against exact integer determinants",
  "det is tested on one 3x3 matrix and singularity on two; the sign bookkeeping of pivoting and the singular tests depend on which rows are exchanged and which pivot vanishes.",
  ["src/decomp/lu.rs", MX], [("product of pivots with the exchange sign", "LUDecomposition::det"), ("zero pivot test", "is_non_singular")],
  ["det, is_singular, is_non_singular of Matrix and LUDecomposition"])

p("C09", "solve and inverse give the solution, or None exactly when singular",
  "For every finite square matrix A and every finite B with as many rows, solve (of the matrix and of its LU decomposition) returns a matrix X of the shape of the unknown with A*X = B, exactly in exact arithmetic and to a small multiple of working precision times |L||U||X| in floating point, and inverse returns X with A*X = I likewise; both return None exactly when is_singular holds. "
  "A right-hand side with a different number of rows is refused with a panic, as is the inverse of a non-square matrix, and the arguments are not changed.",
  ["inputs"], "all square matrices up to a size over alphabets with all right-hand side shapes up to a bound, in exact rationals and f64; permutation matrices; structured families",
  "One system and one inverse are tested; permuted right-hand sides, several columns and singular inputs with every pivot position are not.",
  ["src/decomp/lu.rs", MX], [("permuted forward and back substitution", "LUDecomposition::solve"), ("solve against the identity", "Matrix::inverse")],
  ["solve and inverse results", "panic of the call"])

p("C10", "Cholesky exists exactly for symmetric positive definite matrices and solves",
  "CholeskyDecomposition::new returns Some exactly for matrices that are square, symmetric (exactly) and positive definite, and then get_l is lower triangular with positive diagonal and L*L' equals the matrix; every other matrix of finite entries, and every matrix with a NaN in it, gives None. "
  "solve on a decomposition returns X of B's shape with A*X = B to working precision (exactly in exact arithmetic), and refuses a B with a different number of rows with a panic.",
  ["inputs"], "all matrices of small sizes over alphabets (symmetric and not) decided against exact leading minors, all L*L' products over alphabets, structured families, non-square shapes",
  "One 3x3 factorization, one solve, and two refusals are tested; indefinite matrices that fail only at a later pivot, and asymmetry at other positions, are not.",
  ["src/decomp/cholesky.rs"], [("row-wise factorization with symmetry and pivot tests", "CholeskyDecomposition::new"), ("two triangular solves", "solve")],
  ["Some/None, get_l, solve"])

p("C11", "QR gives an orthogonal Q and upper triangular R with Q*R the matrix",
  "For every non-empty finite matrix of moderate scale, of any shape m-by-n, get_q is an m-by-m orthogonal matrix, get_r is m-by-n upper triangular (trapezoidal), Q*R equals the matrix, and get_h is the m-by-n lower trapezoidal matrix whose columns are the Householder vectors of the reflections whose product is Q, all to a small multiple of working precision. "
  "The argument is not changed.",
  ["inputs"], "all matrices of small shapes over alphabets, structured families for all shapes up to a bound, f64 and f32",
  "Square and one tall example are tested for R and Q; orthogonality of Q for tall matrices, zero columns and low rank are not.",
  ["src/decomp/qr.rs"], [("Householder reflections", "perform_householder_reflection"), ("accumulation of the reflections", "get_q")],
  ["get_q, get_r, get_h"], [("qr, rdiag", "Householder vectors below, R above the diagonal, diagonal of R", "src/decomp/qr.rs")])

p("C12", "QR solve, full-rank test and pseudo-inverse are the least-squares ones",
  "For every m-by-n matrix with m >= n, is_full_rank of its QR decomposition is true when the columns are well independent and false when a column is zero or (in exact cancellation) the triangular factor has a zero on its diagonal; solve returns the n-by-k X that minimises the norm of A*X-B when is_full_rank holds, and None otherwise. "
  "For well-conditioned matrices of full column rank pinverse is the n-by-m Moore-Penrose inverse; a right-hand side with a different number of rows is refused with a panic.",
  ["inputs"], "all m-by-n matrices (m >= n) of small shapes over alphabets with right-hand sides over unit vectors and alphabets, judged by the normal equations in exact rationals; structured families",
  "No test solves with QR for a tall matrix, or compares pinverse with the Moore-Penrose conditions.",
  ["src/decomp/qr.rs", MX], [("Q'B and back substitution", "QRDecomposition::solve"), ("zero test of the diagonal of R", "is_full_rank"), ("(R'R)^-1 A'", "Matrix::pinverse")],
  ["solve, is_full_rank, pinverse"])

p("C13", "SVD reproduces the matrix from orthogonal U, V and ordered singular values",
  "For every non-empty finite m-by-n matrix of moderate scale (products of its entries neither overflowing nor underflowing), get_u is m-by-m and get_v n-by-n, both orthogonal to a small multiple of working precision, get_s is m-by-n and zero off the diagonal with non-negative, non-increasing diagonal entries, and U*S*V' equals the matrix to a small multiple of working precision. "
  "The argument is not changed.",
  ["inputs"], "all matrices of small shapes over alphabets, structured families (rank-deficient, graded, bidiagonal with zero pivots, repeated singular values) for all shapes up to a bound",
  "One 4x3 and a couple of fixed matrices are decomposed; the iteration's four cases, the splitting at zero singular values and the ordering swaps depend on values the tests do not produce.",
  ["src/decomp/svd.rs", "src/internalutil.rs"], [("Golub-Kahan bidiagonalization and implicit QR", "SVD::new"), ("transposition for wide matrices", "SVD::new")],
  ["get_u, get_s, get_v"])

p("C14", "rank counts the singular values above the documented tolerance",
  "rank of an SVD is the number of diagonal entries of S that exceed max(rows, columns) times the largest one times the machine epsilon, and for every finite matrix whose non-zero singular values are well above that tolerance it is the rank of the matrix; it is 0 for zero matrices and works for tall, wide and square shapes alike.",
  ["inputs"], "all small integer matrices of every shape against exact rank, structured families of known rank for all shapes up to a bound, diagonal matrices with entries around the tolerance",
  "rank is tested on one or two matrices; tall shapes, zero matrices and values near the tolerance are not.",
  ["src/decomp/svd.rs"], [("tolerance comparison", "SVD::rank")], ["rank, get_s"])

p("C15", "Symmetric matrices get real sorted eigenvalues and orthogonal eigenvectors",
  "For every exactly symmetric finite matrix of moderate scale (products of its entries neither overflowing nor underflowing), all imaginary parts are zero, the real eigenvalues are in non-increasing order, get_d is the diagonal matrix of them, get_v is orthogonal and A*V = V*D to a small multiple of working precision.",
  ["inputs"], "all symmetric matrices of small sizes over alphabets, symmetric structured families up to a size bound, repeated and zero eigenvalues, graded and tridiagonal matrices",
  "One symmetric 3x3 or 4x4 matrix is tested; decoupled blocks, repeated eigenvalues and the sort depend on values.",
  ["src/decomp/eigen.rs"], [("Householder tridiagonalization", "tred2"), ("implicit QL and sort", "tql2")],
  ["get_v, get_d, get_real_eigenvalues, get_imag_eigenvalues"])

p("C16", "General matrices get all eigenvalues, conjugate pairs and A*V = V*D",
  "For every square finite matrix of moderate scale (products of its entries neither overflowing nor underflowing), get_real_eigenvalues and get_imag_eigenvalues list all eigenvalues with multiplicity (to working precision in the sense of backward error), complex ones as adjacent conjugate pairs with the positive imaginary part first, get_d is the real block diagonal matrix built from them with blocks [re, im; -im, re], no column (or column pair) of get_v is zero, and A*V = V*D holds columnwise to a small multiple of working precision. "
  "A non-square matrix is refused with a panic.",
  ["inputs"], "all matrices of small sizes over alphabets, permutation matrices up to 6x6, companion, rotation, defective and graded families up to a size bound, non-square shapes",
  "One asymmetric matrix is tested; shifts, deflation into 1x1 and 2x2 blocks, exceptional shifts and complex back-substitution depend on values.",
  ["src/decomp/eigen.rs"], [("Hessenberg reduction", "orthes"), ("shifted QR to real Schur form and back-substitution", "hqr2"), ("block assembly", "get_d")],
  ["get_v, get_d, get_real_eigenvalues, get_imag_eigenvalues", "panic of the call"])

p("C17", "Every decomposition finishes within a bounded amount of arithmetic",
  "For every finite matrix of moderate scale, constructing the LU, QR, Cholesky, SVD or eigen decomposition, and every operation on them, finishes after a number of scalar operations bounded by a fixed multiple of the cube of the larger dimension, in f64 and in f32; no input makes an iteration run forever.",
  ["inputs"], "all matrices of small sizes over alphabets, all permutation-derived matrices up to 6x6, structured families (low-rank, nilpotent, cyclic, graded) up to large sizes, with scalar operations counted",
  "Tests see termination of a handful of inputs; the iterations have no iteration limit, so one stagnating input hangs a caller.",
  ["src/decomp/eigen.rs", "src/decomp/svd.rs"], [("convergence tests and shifts", "hqr2, tql2, SVD::new")],
  ["number of scalar operations until the call returns"])

p("C18", "Norms, trace, symmetry and approximate equality follow their definitions",
  "The vector 1-, 2- (euclidean, length), p- and infinity norms, the Frobenius norm and the trace equal their defining formulas on absolute values (the trace also for non-square matrices) to working precision, and the vector norms refuse matrices with more than one column with a panic. "
  "ApproxEq of scalars holds exactly when the absolute difference is less than the given (default 1e-6) epsilon; approx_eq of matrices holds exactly when shapes are equal and all elements are approximately equal, == exactly when shapes and all elements are equal; is_symmetric is exactly squareness plus approx_eq of every mirrored pair, and is_non_symmetric its negation.",
  ["inputs"], "all small vectors over an alphabet with signs, special values and values around the epsilon at every position, all shapes up to a bound, all single-position differences",
  "Each norm is tested on one vector of positive numbers and symmetry on two matrices; position-, sign- and threshold-dependent errors are not covered.",
  [MX, "src/approxeq.rs"], [("norm loops", MX), ("strict comparison with epsilon", "src/approxeq.rs")],
  ["norm values, trace, predicates"])

p("C19", "Results depend only on the arguments: not on garbage memory or call history",
  "Every operation is a function of its arguments: its result is bit-for-bit the same whatever freshly allocated memory contained, whatever library calls ran before in the process or run inside its callbacks and scalar operations, and however often it is repeated on equal arguments; no operation changes an operand it only borrows.",
  ["histories", "configurations"], "all pairs of operations, in sequence and one inside the other at every scalar operation, over a catalogue covering the public API, against the same operation alone in a fresh process, under several fill patterns of uninitialised memory",
  "The library allocates uninitialised vectors everywhere; tests run in one process with benign memory contents and compare within tolerances.",
  ["src/internalutil.rs", MX, "src/decomp/lu.rs", "src/decomp/qr.rs", "src/decomp/svd.rs", "src/decomp/eigen.rs", "src/decomp/cholesky.rs"],
  [("every element of an alloc_dirty_vec buffer is written before it is read", "all users of alloc_dirty_vec"), ("no global or cached state", "whole crate")],
  ["bits of every result"])

p("C20", "Concurrent read-only use of shared matrices gives the sequential results",
  "Matrices and decompositions of Send + Sync element types can be shared between threads, and any interleaving of concurrent operations that only borrow them, or that each work on their own matrices, gives every thread bit-for-bit the result of the sequential run and leaves the shared operands unchanged.",
  ["schedules"], "all interleavings at scalar-operation granularity of two (and three) threads over a catalogue of operation pairs up to a preemption bound",
  "Tests are single-threaded per matrix; hidden shared scratch state would only show under particular interleavings.",
  [MX, "src/internalutil.rs", "src/decomp/lu.rs", "src/decomp/qr.rs", "src/decomp/svd.rs", "src/decomp/eigen.rs", "src/decomp/cholesky.rs"],
  [("no interior mutability, no statics", "whole crate")], ["result of every thread", "shared operands after the run"])

p("C21", "read_csv yields exactly the table in the file, or fails",
  "For every readable UTF-8 file whose lines (separated by LF or CR LF, with or without a final line terminator) all have the same number of comma-separated fields, read_csv returns the matrix with one row per line and one column per field, each element being the parser's result on the field with surrounding whitespace removed, calling the parser once per field in file order, however the bytes arrive. "
  "Missing or empty files, lines with different field counts and invalid UTF-8 are refused with a panic, as is any input on which the parser panics; no row or field is ever dropped, merged or invented.",
  ["inputs", "fault_sequences"], "all short byte strings over an alphabet of separators, digits and blanks; all ways a short file can be split into reads; sizes around buffer and capacity boundaries",
  "There is no test of read_csv at all.",
  ["src/util.rs"], [("line splitting, field splitting, column count check", "read_csv")], ["returned matrix, parser calls, panic"])

p("C22", "Debug output shows every element, one row per line, aligned",
  "Formatting a matrix with {:?} gives a newline followed by one line per row, each line being a bar, then for every element in column order at least one space and the element's own Debug text right-aligned to the width of the longest element text of the matrix, then a space, a bar and a newline; format parameters never break the alignment (they are not used, or every element is formatted with them); print writes the same text to standard output; an error of the writer ends the output and is returned.",
  ["inputs"], "all small matrices over elements with texts of different lengths (negative, fractional, strings of bytes), all shapes up to a bound",
  "The output format is not tested (print is only called).",
  [MX], [("two-pass width computation", "Debug::fmt")], ["the formatted string"])

p("C23", "A panic in a scalar operation or callback leaves every matrix well-formed",
  "If a scalar operation, a mapping, reducing, filtering or parsing callback panics inside any operation, or the operation refuses its arguments, then borrowed operands are unchanged, and a matrix being modified in place keeps its shape, with every element either its value before the call or its value after a successful call (for the transpose: the elements of the original), and remains fully usable.",
  ["fault_sequences"], "every in-place and copying operation, over small shapes, with a panic injected at every single scalar operation or callback invocation",
  "No test makes a scalar or a callback panic, let alone at every point.",
  [MX, "src/util.rs", "src/decomp/lu.rs", "src/decomp/qr.rs"], [("results are built in a fresh buffer or replaced element by element", MX)],
  ["shape and elements after the caught panic, further operations"])

p("C24", "Results scale exactly with the input by powers of two",
  "Multiplying the input by a power of two within the range where neither input nor intermediate squares leave the normal range scales the results accordingly, with no absolute threshold anywhere: LU gives the same pivots and L, QR the same Q up to rounding, singular values and eigenvalues scale by the factor up to rounding and rank does not change, determinants scale by the factor to the n-th power, Cholesky exists for the same matrices (numerically semidefinite ones: for powers of four) and norms and traces scale by the factor.",
  ["inputs"], "all small matrices over alphabets and structured families, times every factor of a ladder of powers of two spanning hundreds of binary orders",
  "Tests use entries of magnitude 1 to 100 and compare with 1e-6; an absolute threshold anywhere is invisible to them.",
  ["src/decomp/lu.rs", "src/decomp/qr.rs", "src/decomp/svd.rs", "src/decomp/eigen.rs", "src/decomp/cholesky.rs", "src/internalutil.rs", MX],
  [("relative convergence criteria, hypot without under/overflow", "SVD::new, hqr2, tql2, hypot")], ["all decomposition results, det, rank, norms"])

p("C25", "Single precision satisfies the same factorization guarantees",
  "For f32 matrices of moderate scale every decomposition (LU, Cholesky, QR, SVD, symmetric and general eigen), solve, inverse, det, rank and the norms satisfy the same defining equations as for f64, with residuals bounded by a small multiple of single precision.",
  ["inputs", "configurations"], "all small matrices over alphabets and structured families instantiated in f32",
  "All decomposition tests use f64 literals only.",
  ["src/decomp/lu.rs", "src/decomp/qr.rs", "src/decomp/svd.rs", "src/decomp/eigen.rs", "src/decomp/cholesky.rs", MX],
  [("generic code over Float", "all decompositions")], ["all decomposition results in f32"])

p("C26", "SVD::direct reproduces full-rank matrices through A'A",
  "For every finite well-conditioned matrix of full rank, with rows >= columns or the transpose of such a matrix, SVD::direct returns factors whose product U*S*V' is the matrix, with non-negative non-increasing singular values equal to those of the matrix, V (for wide matrices U) square orthogonal and the economy part of the other factor orthonormal, to a small multiple of working precision times the squared condition number.",
  ["inputs"], "all small matrices over alphabets that have full rank, structured families with moderate condition number, all shapes up to a bound",
  "direct is tested on one or two matrices.",
  ["src/decomp/svd.rs"], [("eigen decomposition of A'A", "SVD::direct")], ["get_u, get_s, get_v of SVD::direct"])

p("C27", "Different routes to the same quantity agree",
  "On every finite matrix where the quantities are well-conditioned, independent routes through the library agree to working precision: det with the products of eigenvalues and (in magnitude) of singular values and of R's diagonal, trace with the sum of eigenvalues, inverse with pinverse and with solve on unit vectors, Cholesky, LU and QR solutions of one system, the Frobenius norm with the root of the sum of squared singular values, and symmetric eigenvalues in magnitude with singular values; transposing the input transposes determinant, singular values and eigenvalues into themselves.",
  ["inputs"], "all small matrices over alphabets and structured families, with every pair of routes",
  "No test compares two decompositions with each other.",
  ["src/decomp/lu.rs", "src/decomp/qr.rs", "src/decomp/svd.rs", "src/decomp/eigen.rs", "src/decomp/cholesky.rs", MX],
  [("each decomposition computes the same mathematical object", "all decompositions")], ["values of the derived quantities"])

p("C28", "Memory and files are given back and stay in proportion",
  "When the results of a call have been dropped, or the call has ended in a panic of a scalar operation, callback or parser or in a refusal, the library holds no more memory and no more open files than before, however often and in whatever order operations are repeated (a bounded amount kept from the first calls aside). "
  "While it runs, a call holds at most a small multiple of the memory of its operands and results; decompositions and what is computed through them, at most a small multiple of the square of the larger dimension.",
  ["histories", "fault_sequences"], "a catalogue of operations covering the public API, repeated on changing contents of many shapes, in all ordered pairs, with a panic at every scalar operation, and on large thin, wide and square shapes",
  "Tests never look at memory; a buffer that is forgotten only on a panic, on one shape or with repeated use shows in no result.",
  ["src/internalutil.rs", MX, "src/util.rs", "src/decomp/lu.rs", "src/decomp/qr.rs", "src/decomp/svd.rs", "src/decomp/eigen.rs", "src/decomp/cholesky.rs"],
  [("buffers are owned vectors, released by drop", "all users of alloc_dirty_vec"), ("the file is owned by the reader", "src/util.rs")],
  ["bytes held by the global allocator during and after calls", "open file descriptors"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
