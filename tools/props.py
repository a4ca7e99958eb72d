#!/usr/bin/env python3
"""Single source of the property list.  Writes properties.jsonl and MANIFEST.json.

Run:  python3 tools/props.py
"""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, claimed=True, note=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, observe=observe or [], claimed=claimed, note=note,
                  technique=technique))


# ---------------------------------------------------------------- sparse matrices
prop("S01", "Sparse matrices hold exactly the entries they were given",
     "A compressed-row sparse matrix built in any supported way (empty shape, row-by-row pushes, (row,column,value) triplets at distinct positions in any order, "
     "sorted coordinate list, dense conversion, raw arrays, diagonal builder) represents exactly the given entries: every element read, iteration over rows, conversion back to dense, "
     "shape and stored-entry count agree with them. Empty rows, matrices without entries and rectangular shapes are represented correctly. "
     "Copying, swapping, clearing, resizing and in-place value edits affect only the matrices involved and keep the representation valid. "
     "The sample matrix, given entries or a seed, holds those entries (equal positions add up), multiplies accordingly, and comes back the same when written and read.",
     ["inputs", "histories"], "every shape (including 0 rows, empty rows, rectangular), every list of triplets or pushes, every sequence of edits, real and complex entries",
     "The existing driver prints one random matrix and never compares anything; empty rows, repeated triplets and rectangular shapes are not exercised.",
     ["src/CrsMatrix.h", "src/SampleCRSMatrix.h"],
     [("triplet constructor and row-pointer construction", "src/CrsMatrix.h: CrsMatrix(rank,rows,cols,vals)"),
      ("row pushing protocol setRow/pushCol/pushValue/checkValidity", "src/CrsMatrix.h"),
      ("dense<->sparse conversion", "src/CrsMatrix.h: fullMatrixToCrsMatrix, crsMatrixToFullMatrix")])

prop("S02", "Sparse matrix algebra equals dense algebra",
     "Every algebraic operation on sparse matrices (sum, scaled sum, difference, product, scaling, deferred arithmetic expressions, conjugate transpose, accumulating matrix-vector product, "
     "external products of two matrices or of a matrix and an identity with signs and a basis permutation, embedding of a block, norm) gives the same matrix or vector as the textbook dense computation on the same operands. "
     "Operands are not modified, the destination may be one of the operands where the interface takes it by plain assignment, and rectangular operands are handled wherever the mathematics defines the result.",
     ["inputs", "programs"], "all conforming shapes and sparsity patterns, real and complex entries, all expression combinations offered, including aliasing of source and destination",
     "Unit drivers perform one product on one matrix and do not check the answer; sparsity corner cases (cancelling entries, empty rows) and aliasing are not reached.",
     ["src/CrsMatrix.h"],
     [("product/sum kernels", "src/CrsMatrix.h: multiply, add, operator+=, operatorPlus"),
      ("closure expressions", "src/CrsMatrix.h: std::ClosureOperator assignments, fromParallel"),
      ("transposeConjugate, externalProduct, permute, permuteInverse", "src/CrsMatrix.h")])

prop("S03", "Matrix structure questions are answered truthfully",
     "Asking whether a dense or sparse matrix is Hermitian (or anti-Hermitian), diagonal, the identity, zero, or equal to another returns exactly what the definition says about its elements, "
     "for matrices whose deviation from the definition is either at rounding level or clearly larger than the questions' fixed tolerance. "
     "The answer does not depend on whether zero elements are stored explicitly or omitted, nor on which single element deviates.",
     ["inputs"], "all shapes, all positions of one or several deviating elements, explicit or implicit zeros, real and complex entries",
     "Tests never ask these questions of a matrix that violates them in exactly one element.",
     ["src/CrsMatrix.h", "src/Matrix.h", "src/Matrix.cpp"],
     [("isHermitian/isDiagonal/isTheIdentity/isZero/isAntiHermitian", "src/CrsMatrix.h, src/Matrix.h")])

# ---------------------------------------------------------------- dense
prop("D01", "Dense matrix and vector arithmetic equals its textbook meaning",
     "Dense matrix and vector operations (sums, differences, scaling, products, deferred arithmetic expressions, transpose, conjugate, norms, inner and outer products, change of basis, reshaping, raw-memory views) "
     "return what the element-wise definition says for every conforming shape, including empty and rectangular ones, for integer, real and complex elements, and leave operands unchanged. "
     "Assigning a product of matrices or an element-wise expression to one of its own operands gives the same value as assigning it to a fresh object.",
     ["inputs", "programs"], "all shapes, element values and expression trees offered, integer, real and complex element types",
     "Drivers print a handful of fixed expressions and compare nothing.",
     ["src/Matrix.h", "src/Matrix.cpp", "src/Vector.h", "src/MatrixNonOwned.h", "src/Complex.h"],
     [("closures and operator overloads", "src/Matrix.h, src/Vector.h: ClosureOperator"),
      ("BLAS dispatch", "src/BLAS.h, src/Matrix.h")])

prop("D02", "Dense factorizations reproduce the matrix they were given",
     "Diagonalization of a Hermitian matrix yields ascending real eigenvalues and an orthonormal eigenbasis satisfying the eigen equation; general complex eigenvalues, singular value decomposition of any shape and job mode, inversion, the exponential of a real symmetric matrix and exp(iH), exp(i pi H) of a Hermitian one likewise satisfy their defining equations to rounding accuracy. "
     "Eigenvalues-only calls agree with full calls, and the inverse of a singular matrix and unknown job modes are reported as errors.",
     ["inputs"], "all orders and shapes, real and complex entries, degenerate and ill-separated spectra",
     "Existing drivers call the routines on one matrix and do not verify the defining equations.",
     ["src/Matrix.cpp", "src/Matrix.h", "src/Svd.h", "src/LAPACK.h", "src/LapackExtra.h"],
     [("diag/geev/inverse/exp wrappers", "src/Matrix.h, src/Matrix.cpp"), ("Svd functor", "src/Svd.h")])

prop("D03", "Matrix multiplication and linear algebra kernels equal their definitions",
     "The library's own multi-threaded general matrix multiplication computes C := alpha op(A) op(B) + beta C exactly as the reference definition, for every shape, leading dimension, transposition flag, scalar pair, block size and thread count, and changes no memory outside the logical C matrix. "
     "The library's typed wrappers of the linear algebra kernels (matrix-matrix, matrix-vector, symmetric, Hermitian, rank-k and rank-1 products, vector scaling, copying, addition and inner products) pass every argument so that the result is the one their definition gives.",
     ["inputs", "configurations", "schedules"], "all m,n,k >= 0, leading dimensions >= minimum, all flag pairs, thread counts 1..8 and block sizes",
     "The driver uses one square size and flag combination and does not compare every element.",
     ["src/GemmR.h", "src/Parallelizer2Pthread.h", "src/BLAS.h"],
     [("blocked kernel split over threads", "src/GemmR.h")])

# ---------------------------------------------------------------- iterative solvers
prop("L01", "The iterative eigensolver finds the lowest states",
     "For every Hermitian matrix given through the matrix-vector interface and every starting vector that has a component along the states sought, the iterative solver returns the lowest eigenvalue (and, when several states are requested, the lowest ones in order) within its tolerance, never below the true minimum beyond rounding, with normalized vectors satisfying the eigen equation. "
     "Small, diagonal, degenerate and one-dimensional matrices give the same guarantee as generic ones, and a step limit gives the variational answer of that many steps.",
     ["inputs", "configurations"], "Hermitian real and complex matrices of every order and spectrum shape; options for steps, tolerance, reorthogonalization and vector storage",
     "Drivers run one random matrix and print an energy without comparing it with an exact diagonalization.",
     ["src/LanczosSolver.h", "src/LanczosCore.h", "src/LanczosVectors.h", "src/LanczosOrDavidsonBase.h", "src/ParametersForSolver.h"],
     [("Lanczos iteration and Ritz vectors", "src/LanczosSolver.h, src/LanczosCore.h, src/LanczosVectors.h")])

prop("L02", "The tridiagonal decomposition is a similarity of the matrix",
     "Decomposing a Hermitian matrix from a starting vector yields orthonormal basis vectors and a real tridiagonal matrix equal to the projection of the matrix on that basis, the first basis vector being the normalized start. "
     "The eigenvalues computed from any leading block of a tridiagonal matrix, its dense form and its copy read back from text agree with exact diagonalization of the same coefficients.",
     ["inputs", "configurations"], "Hermitian matrices and start vectors of every order up to breakdown; every tridiagonal matrix",
     "Only one run-through with printing exists; nothing checks orthogonality or the projection identity.",
     ["src/LanczosCore.h", "src/LanczosVectors.h", "src/TridiagonalMatrix.h", "src/TridiagonalMatrix.cpp"],
     [("oneStepDecomposition and reorthogonalization", "src/LanczosCore.h, src/LanczosVectors.h"),
      ("tridiagonal eigen solver", "src/TridiagonalMatrix.h")])

prop("L03", "Continued fractions evaluate the resolvent they represent",
     "A continued fraction built from tridiagonal coefficients evaluates at every frequency, offset and sign to weight times the first diagonal element of the corresponding shifted resolvent, and a plot lists exactly the requested grid of real or Matsubara frequencies in order. "
     "A collection evaluates to the sum of its members, and writing a fraction or collection to text and reading it back preserves every evaluation to the written precision.",
     ["inputs", "histories"], "all coefficient sequences, weights, signs, energies, frequency kinds and grids",
     "No test evaluates a fraction against an independent resolvent.",
     ["src/ContinuedFraction.h", "src/ContinuedFractionCollection.h", "src/PlotParams.h", "src/FreqEnum.h"],
     [("diagonalized evaluation", "src/ContinuedFraction.h: iOfOmega, plot"), ("sum over members", "src/ContinuedFractionCollection.h")])

prop("L04", "Chebyshev expansions follow the Chebyshev recursion",
     "The recursive and explicit Chebyshev polynomial evaluators return the n-th Chebyshev polynomial for every order and argument in [-1,1], and the kernel polynomial sum equals its defining trigonometric sum for every kernel, cutoff and frequency. "
     "For a Hermitian matrix whose spectrum straddles zero, the Chebyshev solver's single step equals the three-term recursion of the scaled matrix, and its decomposition yields the polynomial moments and vectors of that matrix in the starting vector.",
     ["inputs"], "orders, arguments in [-1,1], Hermitian matrices with spectrum in the admissible window",
     "Only a few values are printed by a driver; the solver itself is never compiled.",
     ["src/ChebyshevFunction.h", "src/ChebyshevFunctionExplicit.h", "src/ChebyshevSolver.h", "src/ChebyshevSerializer.h"],
     [("recursion", "src/ChebyshevSolver.h: oneStepDecomposition"), ("polynomials", "src/ChebyshevFunction.h")])

# ---------------------------------------------------------------- parallel
prop("T01", "Parallel loops run every task exactly once with the stated thread identity",
     "Running a set of tasks through any of the library's parallel loop drivers (POSIX threads, OpenMP or serial forms, with any balancer) executes each task index exactly once, whatever the number of tasks and threads, only with thread numbers below the number of threads announced, and never two tasks at once under one thread number. "
     "All task effects are visible when the call returns, per-thread accumulations combined afterwards equal the sequential result, requested stack sizes and processor pinning are honoured, and loops can be repeated, resized and nested inside one program. "
     "If the system cannot create a thread, the loop either does every task all the same or reports an error once the tasks that were started have ended; no task is lost silently or done twice.",
     ["schedules", "inputs", "configurations", "faults"], "all task counts (including 0 and fewer than threads), thread counts, weight vectors, stack sizes and loop repetitions, under arbitrary thread interleavings and failures of thread creation",
     "One driver sums a fixed range with one thread count; schedules, uneven weights and fewer tasks than threads are not reached.",
     ["src/PthreadsNg.h", "src/Parallelizer.h", "src/Parallelizer2.h", "src/Parallelizer2Pthread.h", "src/Concurrency.h", "src/Concurrency.cpp", "src/NoPthreadsNg.h", "src/Pthreads.h", "src/InterNodeSerial.h"],
     [("pthread start/join and per-thread block lists", "src/PthreadsNg.h: loopCreate"), ("Parallelizer2 block ranges", "src/Parallelizer2Pthread.h")])

prop("T02", "Load balancing partitions the work",
     "Every load balancer assigns each task index to exactly one worker, for any number of tasks, workers and any weights, and the per-worker counts and indices it reports are consistent. "
     "Unweighted block balancers give contiguous blocks no larger than the rounded-up equal share, and the weighted balancer spreads tasks so that no worker would be better off after handing its lightest task to another.",
     ["inputs"], "all task counts, worker counts, block sizes and weight vectors",
     "No test inspects the assignment.",
     ["src/LoadBalancerDefault.h", "src/LoadBalancerWeights.h", "src/LoadBalancerMpi.h"],
     [("block assignment", "src/LoadBalancerDefault.h"), ("greedy weighted assignment", "src/LoadBalancerWeights.h")])

# ---------------------------------------------------------------- I/O
prop("I01", "Binary files return exactly the values written",
     "Every supported value (booleans, integers, reals, enumerations, strings, pairs, vectors of numbers, complex numbers, booleans, enumerations, pairs or vectors, dense and sparse matrices, vectors and stacks of matrices), empty ones included, written to a binary file under a label in any group is read back bit-for-bit equal under that label, after closing and reopening the file. "
     "Distinct labels do not interfere, and an existing target object is completely replaced by what is read. "
     "Asking for an absent label, or for a vector of another numeric kind than the one stored (except reals as complex numbers), is an error that leaves the file usable.",
     ["inputs"], "all supported types, sizes and special values (extremes, infinities, NaN payload-preserving, embedded whitespace) and label nestings",
     "A single driver writes a few fixed values and prints what it reads.",
     ["src/Io/IoNg.h", "src/Io/IoNgSerializer.h", "src/Io/TypeToH5.h", "src/Io/TypeToH5.cpp", "src/Io/IoSelector.h"],
     [("type dispatch and dataset layout", "src/Io/IoNgSerializer.h"), ("native type mapping", "src/Io/TypeToH5.h")])

prop("I02", "A binary file always holds the latest value of every label",
     "After any history of creating groups, writing, overwriting (also with another size), appending vector entries, flushing, closing and reopening in any mode, every label in a binary file reads as the value most recently written to it, and labels never written or removed by truncation are reported as missing. "
     "Writing over an existing label without permission to overwrite, overwriting a type that does not support it, creating an existing group, writing through a read-only file, and opening in a mode that does not fit (exclusive creation of an existing file, update of an absent one) are refused and change nothing. "
     "The last entry of an incrementally written vector, and the number of entries, are those of the last append.",
     ["histories", "configurations"], "every sequence of write, overwrite, partial update, group creation, close, reopen and read operations over all modes",
     "Histories with overwriting and reopening are sampled by no test beyond one fixed sequence.",
     ["src/Io/IoNg.h", "src/Io/IoNgSerializer.h"],
     [("write modes (NO_OVERWRITE, ALLOW_OVERWRITE) and access modes", "src/Io/IoNgSerializer.h, src/Io/IoNg.h")])

prop("I03", "An interrupted binary file is never mistaken for a complete one",
     "If the process that writes a new binary file dies at any point before it has closed or flushed it, a later attempt to open that file for reading fails with an error, or (when it died during the final closing) finds every value intact. "
     "After an orderly close every value is readable, and after a flush every value written before it is readable even if the process then dies before the next flush or close. "
     "Files cut short at any length, foreign files, and files without a valid completion mark are refused with an error and can be created anew afterwards.",
     ["crash_points", "inputs"], "every kill point in a write history; every truncation or byte corruption of a finished file's header",
     "No test kills a writer or reads a damaged file.",
     ["src/Io/IoNg.h", "src/Io/IoNgSerializer.h"],
     [("canary attribute written at open and finalized at close", "src/Io/IoNg.h: writeCanary")])

prop("I04", "Text serialization round-trips",
     "Dense matrices, sparse matrices, vectors, stacks and numbers written to a text stream, raw descriptor or labelled text file are read back with the same shape and with the same values to the written precision, whatever the previous content of the target object, and streams of text that end too early are noticed (exception or failed stream). "
     "Labelled reads find the requested occurrence (counting from the current position, or the last one of the file) of the first word that starts with the label, skip everything else, continue after what was read, report an absent label or occurrence as an error, count occurrences correctly, and start over after rewinding.",
     ["inputs", "histories"], "all shapes including empty, all label sequences and occurrence levels, all numeric values representable at the stream precision",
     "Drivers print to the screen; reading back and label search orders are untested.",
     ["src/Io/IoSimple.h", "src/Matrix.h", "src/CrsMatrix.h", "src/Vector.h", "src/Stack.h"],
     [("label scanning", "src/Io/IoSimple.h: In::advance, readline"), ("stream operators", "src/Matrix.h, src/CrsMatrix.h, src/Vector.h")])

prop("I05", "Base-64 encoding is the standard and is invertible",
     "Encoding any byte string yields its standard padded base-64 text, and decoding that text, with or without padding, yields the original bytes for every length and byte content. "
     "Decoding stops at the first character outside the base-64 alphabet and returns the bytes complete until there, without memory errors.",
     ["inputs"], "all byte strings of all lengths modulo three, all padded base-64 texts",
     "The driver encodes one fixed string.",
     ["src/PsiBase64.h", "src/PsiBase64.cpp"],
     [("table-driven encode/decode", "src/PsiBase64.cpp")])

# ---------------------------------------------------------------- parsers
prop("A01", "Typed input files deliver the declared values",
     "In the typed input language every well-formed declaration or assignment of a supported kind (integers, reals, quoted and unquoted strings, vectors of integers, reals, complex numbers and strings, matrices, repetition with an ellipsis) is delivered to the program exactly as written, whether declared and assigned together or separately, under a label prefix, and whatever the target held before. "
     "The last assignment wins, a label without a value cannot be read, labels whose type ends in an exclamation mark are listed as unused exactly until they are read, and blanks, ends of line and comments between tokens never change a value.",
     ["inputs", "programs"], "all well-formed input programs over the supported types, any whitespace and comment layout",
     "Tests read a few fixed files and print them.",
     ["src/Ainur/AinurSpirit.cpp", "src/Ainur/AinurSpirit1.cpp", "src/Ainur/AinurState.h", "src/Ainur/AinurConvert.cpp", "src/Ainur/AinurConvert1.cpp", "src/Ainur/AinurConvert.hh", "src/Ainur/AinurLexical.h", "src/Ainur/AinurDoubleOrFloat.h"],
     [("grammar", "src/Ainur/AinurSpirit*.cpp"), ("declare/assign/readValue", "src/Ainur/AinurState.h"), ("conversion of value text", "src/Ainur/AinurConvert*")])

prop("A02", "Malformed typed input is rejected, never misread or fatal",
     "A typed input text that is ill formed (characters outside of the alphabet, undeclared or doubly declared names, missing terminators, equal signs, names or values, unbalanced brackets, numbers or lists of the wrong form, unknown or self-referring macros, bad repetition sizes) is refused with an exception the caller can catch, when it is parsed or when the label is read. "
     "No text crashes the process, corrupts memory or loops forever; the text of a number or list is read as exactly the numbers it spells or refused; and a fault inside one value never changes the value of another label.",
     ["inputs"], "arbitrary byte strings, and single-fault mutations of well-formed inputs",
     "Tests only contain well-formed files.",
     ["src/Ainur/AinurSpirit.cpp", "src/Ainur/AinurSpirit1.cpp", "src/Ainur/AinurState.h", "src/Ainur/AinurConvert.cpp", "src/Ainur/AinurConvert1.cpp", "src/Ainur/AinurLexical.h", "src/Ainur/AinurMacros.hh"],
     [("syntax errors and state errors raised as exceptions", "src/Ainur/AinurSpirit.cpp, src/Ainur/AinurState.h: err")])

prop("A03", "Input macros and tabulated functions expand to their definitions",
     "A macro used in a typed input value, at any position, is replaced by the fully expanded text of the last value given to its label, in whatever order the labels are defined, and all other text is unchanged; numbers, vectors and matrices read the expanded text. "
     "A function tabulated in a file returns, to full precision, for each listed argument the value in the selected column for every separator and choice of columns, and a missing file, an argument or a column that the table does not have is refused.",
     ["inputs"], "all macro definitions and use positions; all tables, separators, columns and arguments",
     "No test uses macros with more than one occurrence or a table with more than one column.",
     ["src/Ainur/AinurMacros.hh", "src/Ainur/AinurSpirit.cpp"],
     [("expandMacrosRecursively and AinurFunction table", "src/Ainur/AinurMacros.hh")])

prop("N01", "Line-oriented input files deliver their labelled values",
     "In the line-oriented input format, every labelled scalar, string, counted vector, matrix, map and indexed family is delivered exactly as written, whatever the layout (blanks, blank lines, comments, values over several lines) and the order of reading, and the checker is told of each in file order.  "
     "Repeated labels are delivered in file order on successive reads and the last one stays; a forced removal takes an entry away.  "
     "Missing labels, wrong element counts, values that are not numbers of the kind asked for, and malformed matrices, maps and families are reported as errors.",
     ["inputs", "histories"], "all well-formed files over the supported constructs and layouts, all read orders; single-fault mutations",
     "The reader is not compiled by any registered test.",
     ["src/InputNg.h", "src/InputCheckBase.h", "src/TypeToString.h"],
     [("state machine over characters", "src/InputNg.h: Writeable"), ("label map and numbered duplicates", "src/InputNg.h: Readable")])

prop("N02", "Option lists and solver parameters are taken exactly as given",
     "A program-options list accepts exactly the registered option names separated by commas: in strict mode any other name is an error, in permissive mode it is accepted with a warning, in disabled mode no option is ever set.  "
     "An option is reported as set exactly when it was listed, and a label as disabled exactly when it was disabled.  "
     "Solver parameters read from an input take the value given for their index, else that of the largest smaller index given, else the general one, else the documented default.",
     ["inputs"], "all option lists over registered and unregistered names, all labels",
     "No registered test supplies an unknown or partially matching option.",
     ["src/Options.h", "src/LabelDisabled.h", "src/ParametersForSolver.h"],
     [("Options::Writeable/Readable", "src/Options.h"), ("indexed fallback", "src/ParametersForSolver.h: bunnie")])

prop("E01", "Arithmetic expression strings evaluate to their mathematical value",
     "An arithmetic expression given in the library's level-by-level operator notation evaluates, for real and complex numbers and any nesting, to the value of the expression it denotes, for all supported operations and functions, however many expressions share the same primitives.  "
     "The text of a complex number is read as that number, whatever the form and the signs of its parts.  "
     "Expressions without all their operands, unknown operations and what is not a number are reported as errors.",
     ["inputs", "programs"], "all expression trees over the supported primitives, variables and literals",
     "The driver evaluates one expression.",
     ["src/AST/ExpressionForAST.h", "src/AST/PlusMinusMultiplyDivide.h", "src/AST/Node.h", "src/AST/Tree.h", "src/AST/AdditionalFunctions.h"],
     [("tree construction from postfix/prefix text", "src/AST/ExpressionForAST.h"), ("primitives", "src/AST/PlusMinusMultiplyDivide.h, AdditionalFunctions.h")])

prop("E02", "Sum-of-products expressions evaluate to their algebraic value",
     "A canonical expression (sum of products of named items and of scalars: real, imaginary, or expressions in parentheses) evaluates to the algebraic sum of those products, with the items of a product multiplied in the order written, whatever the result variable held before.  "
     "Unbalanced or nested parentheses, misplaced minus signs, malformed scalars, imaginary scalars in real code, unknown items, and items that do not match are rejected with an error.",
     ["inputs", "programs"], "all sums of products up to the supported nesting, scalars real, imaginary or complex, any item type",
     "Never compiled by a registered test.",
     ["src/CanonicalExpression.h", "src/QuasiCanonical.h"],
     [("term and factor splitting", "src/QuasiCanonical.h, src/CanonicalExpression.h")])

prop("E03", "Predicates over named values evaluate to their logical value",
     "A predicate string (alternatives of conjunctions of comparisons and divisibility tests between arithmetic terms of named values) is true exactly when its logical reading is true for the supplied values, for every operator and value type (int, SizeType, double) and whatever the names have in common.  "
     "Settings among the alternatives go to the caller in order and the empty predicate is false.  "
     "Unparsable predicates, unknown names, literals the value type cannot hold, and divisibility by zero are reported as errors.",
     ["inputs", "programs"], "all predicates over the supported operators and every assignment of the named values",
     "The documentation example is not a registered test and samples one predicate.",
     ["src/PredicateSimple.h", "src/PredicateSimple.cpp", "src/PredicateAnd.h", "src/PredicateAwesome.h", "src/PredicateDefaultSpec.h"],
     [("left/operator/right splitting", "src/PredicateSimple.cpp"), ("AND and OR lists", "src/PredicateAnd.h, src/PredicateAwesome.h")])

prop("E04", "Operator and state specifications are decoded faithfully",
     "An operator specification (name, optional index, optional transpose mark), a name with a site in brackets, and a bra or ket specification are decoded into exactly the parts written, for every name and number.  "
     "Malformed specifications (brackets that do not match, letters without their number, trailing text, numbers out of range) are rejected with an error instead of being decoded to something else.",
     ["inputs"], "all specifications built from names, sites and indices; single-character mutations",
     "Never compiled by a registered test.",
     ["src/OneOperatorSpec.h", "src/GetBraOrKet.h"],
     [("bracket parsing", "src/OneOperatorSpec.h, src/GetBraOrKet.h")])

prop("U01", "String helpers and number conversions are exact and total",
     "Splitting a string by a delimiter set, replacing every occurrence of a text, the last component of a path and the name without its extension, recognising and converting integers and reals, bit lengths and exact division return exactly what the definition says for every string and number, and text that is not a number is recognised as such or refused. "
     "Converting an integer, real, complex number or word to text gives its value to ten significant digits, and numbers, pairs, vectors and stacks written to a stream are read back equal. "
     "Reading a file whole returns its bytes.",
     ["inputs"], "all strings, delimiters and numbers in range",
     "A few fixed strings are printed by drivers.",
     ["src/PsimagLite.h", "src/PsimagLite.cpp", "src/TypeToString.h", "src/Vector.h", "src/FloatingPoint.h", "src/AlmostEqual.h"],
     [("split, replaceAll, isAnInteger, stringToComplex ...", "src/PsimagLite.cpp, src/PsimagLite.h")])

# ---------------------------------------------------------------- combinatorics, numerics
prop("C01", "Sorting yields the ordered permutation it reports",
     "Sorting a container orders it ascending and reports the permutation that was applied, so that indexing the original by the reported permutation gives the sorted container. "
     "The permutation contains each index exactly once for every size, including empty, and for repeated values. "
     "Sorting only the first elements orders these and leaves the rest as they were.",
     ["inputs"], "all containers and sizes including duplicates; value types supported",
     "One fixed vector is sorted by a driver.",
     ["src/Sort.h"], [("index sort and permutation", "src/Sort.h")])

prop("C02", "Enumerations visit every configuration exactly once",
     "The permutation generator, the enumeration of the ways to write a number as an ordered sum of parts (all of them, only their number, or one by its position), index packing and unpacking, and bit counts visit or compute exactly the mathematically defined objects: every one, each once, in ascending order, and mutually inverse where they are inverses. "
     "Asking for a decomposition that is not there is an error.",
     ["inputs"], "all sizes and limits small enough to enumerate, all machine words for the bit helpers",
     "Drivers print a single enumeration.",
     ["src/Permutations.h", "src/SumDecomposition.h", "src/PackIndices.h", "src/BitManip.h", "src/Map.h"],
     [("next-permutation, sum decomposition, mixed radix packing, bit tables", "src/Permutations.h, src/SumDecomposition.h, src/PackIndices.h, src/BitManip.h")])

prop("C03", "Sparse vectors and row accumulators sum what is put into them",
     "A sparse vector or sparse-row accumulator holds, for each index, the sum of everything added at that index, whatever the order of insertion. "
     "Its scaling, difference, inner product, norm, comparison, sorting, chunking by offset or by partition, and finalization into a sparse matrix or against a dense vector agree with the dense equivalent. "
     "Chunks that do not contain all the entries are an error where checking is asked for.",
     ["inputs", "histories"], "all sequences of insertions with repeated and unordered indices, sorts, scalings, sums and chunk copies",
     "Never compiled by a registered test.",
     ["src/SparseVector.h", "src/SparseRow.h", "src/SparseRowCached.h"],
     [("sort-and-merge", "src/SparseVector.h: sort"), ("finalize into compressed rows", "src/SparseRow.h, src/SparseRowCached.h")])

prop("C04", "Random generators are the documented ones and are reproducible",
     "The Mersenne twister follows the published recurrence and tempering from its seeded state, the 48-bit generator is the standard linear congruential one, and the generator for tests is the minimal standard one, for every seed; the per-rank streams are seeded from the first numbers of the common one. "
     "Reseeding restarts the stream exactly, copies continue it, and independent instances of the twister and of the generator for tests do not disturb each other. "
     "Reals are in the unit interval and integers in the full 32-bit range.",
     ["inputs", "histories"], "all seeds and stream lengths, reseeding at any point, independent generator instances",
     "One driver prints a few numbers of one seed.",
     ["src/MersenneTwister.h", "src/MersenneTwister.cpp", "src/Random48.h", "src/RandomForTests.h"],
     [("MT19937 state update and tempering", "src/MersenneTwister.cpp")])

prop("M01", "Numerical integrators, minimizers, root finders and interpolators converge",
     "Integrating over finite, broken, half-infinite and infinite intervals, minimizing with or without gradients, finding the root of, or interpolating a function whose answer is known in closed form gives that answer within the requested or theoretically guaranteed accuracy, and the differential equation solver takes the steps of the classical fourth-order Runge-Kutta rule. "
     "Interpolation reproduces its data points and follows Akima's rule between them, and the root finder stays in its bracket. "
     "Invalid brackets, too few steps, too few points and arguments out of range are refused.",
     ["inputs"], "families of smooth functions with closed-form answers, tolerances, intervals, step sizes and starting points",
     "Most of these are never compiled, or print one value.",
     ["src/Integrator.h", "src/Minimizer.h", "src/RootFindingBisection.h", "src/RungeKutta.h", "src/AkimaSpline.h"],
     [("GSL wrappers", "src/Integrator.h, src/Minimizer.h, src/GslWrapper.h"), ("RK4, bisection and Akima algorithms", "src/RungeKutta.h, src/RootFindingBisection.h, src/AkimaSpline.h")])

prop("M02", "Special functions satisfy their identities over their whole range",
     "The occupation function and its derivative are bounded, symmetric about the chemical potential, monotone and mutually consistent for every finite argument without overflow, and its logarithm agrees with it. "
     "The logarithm of gamma satisfies its recurrence, reflection, conjugation and real values over the complex plane, and the cosine integral its definition. "
     "Real, imaginary part, conjugate and norm of real and complex numbers agree with their definition.",
     ["inputs"], "all finite real arguments including extremes; complex arguments away from poles",
     "One or two values are printed by drivers.",
     ["src/Fermi.h", "src/SpecialFunctions.h", "src/SpecialFunctions.cpp", "src/Complex.h"],
     [("overflow-safe branches", "src/Fermi.h"), ("asymptotic expansion with recurrence", "src/SpecialFunctions.cpp")])

prop("M03", "Linear prediction continues signals that obey a linear recurrence",
     "Given samples of a signal that obeys a linear recurrence of the fitted order, linear prediction extends the series by the requested number of points, in one or several rounds, with the values the recurrence dictates; for any other samples, with the recurrence of least squared error over their second half; the filtered prediction does so without the growing components. "
     "The original samples are preserved. "
     "An odd number of samples, or an order that is zero or more than half of them, is an error.",
     ["inputs"], "all recurrences with bounded solutions, sample counts and prediction lengths",
     "One driver prints a prediction from one file.",
     ["src/LinearPrediction.h"],
     [("normal equations and extension", "src/LinearPrediction.h")])

# ---------------------------------------------------------------- geometry
prop("G01", "Connections are those of the lattice, couplings those of the input",
     "The supported lattices are the chain, long chain, ladder with two or more legs, ladder with diagonals (two legs), ladder with baths, CuO2 plane (constant couplings), star and long-range matrix. For every size and periodicity, two different sites are connected exactly when they are neighbours in that lattice (always, for the long-range one); the relation is symmetric and the direction of a bond does not depend on the order of its sites. "
     "The coupling returned for a bond is the one given in the input for that bond, or for its direction when couplings are constant. For several degrees of freedom it is the matrix element between them for sites in decreasing order, and its conjugate transpose when the sites are exchanged. For a long-range lattice it is the matrix entry as given, in full or compact form. "
     "Unconnected pairs have zero coupling. This is so for inputs in memory, line-oriented and Ainur, for one or several terms on different lattices, and the printed table shows the same couplings. Momenta of two-by-two clusters (star, four orbitals) add as the cluster's; others are refused.",
     ["inputs", "configurations"], "all lattice kinds, sizes, leg counts, periodicity options and coupling tables",
     "No registered test compiles the geometry code.",
     ["src/Geometry/Geometry.h", "src/Geometry/GeometryTerm.h", "src/Geometry/GeometryDirection.h", "src/Geometry/LongChain.h", "src/Geometry/Ladder.h", "src/Geometry/LadderX.h", "src/Geometry/LadderBath.h", "src/Geometry/KTwoNiFFour.h", "src/Geometry/LongRange.h", "src/Geometry/Star.h", "src/Geometry/Honeycomb.h", "src/Geometry/GeometryEx.h", "src/Geometry/GeometryDca.h"],
     [("connected, calcDir, handle", "src/Geometry/*.h"), ("coupling lookup", "src/Geometry/GeometryDirection.h, GeometryTerm.h")])

prop("G02", "Each bond has its own storage slot within the declared size",
     "For every chain, long chain, ladder, ladder with diagonals (two legs), ladder with baths and star, of every size and periodicity, the slots assigned to the bonds of a direction are distinct, independent of the order of the two sites and smaller than the number of values that direction asks for. "
     "Reading an input with the stated number and shape of couplings succeeds (one per direction when couplings are constant); for single couplings any other number is an error, and so are missing or wrongly shaped matrices, a long-range matrix of the wrong size, and compact entries with a site or degree of freedom out of range. "
     "A number of sites that does not suit the lattice (not divisible by its legs or by one plus its baths, or not above the chain's distance) is an error, and so is a ladder of more than two legs whose input does not say whether they close.",
     ["inputs", "configurations"], "all lattice kinds, sizes, leg counts and directions",
     "No registered test compiles the geometry code.",
     ["src/Geometry/GeometryBase.h", "src/Geometry/GeometryDirection.h", "src/Geometry/LongChain.h", "src/Geometry/Ladder.h", "src/Geometry/LadderX.h", "src/Geometry/LadderBath.h", "src/Geometry/Star.h", "src/Geometry/Honeycomb.h"],
     [("handle and getVectorSize", "src/Geometry/*.h")])

prop("G03", "Splitting a lattice into blocks partitions its sites",
     "Dividing a lattice into a left block, blocks that grow it, blocks that grow the right block, and a right block assigns every site to exactly one part, for every number of sites and block size that divides it into three or more (or any number, for single sites); blocks are contiguous, the system's ascending and the environment's descending, with each block's sites in ascending order. Sizes that cannot be so divided are refused. "
     "For open chains, long chains and ladders (with baths: of the ladder's own bonds and sites), every system or environment site with a bond across a cut is reported as boundary; exactly those are when each side holds a whole rung. While sites are still missing between the two sides (two-leg ladders, symmetric cuts), the environment's boundary sites are substituted, in order, by the sites after the system, and couplings across are those of the substituted sites. "
     "Reflections and translations permute the sites as coordinates say, and keep the bonds of the lattice (translations, of the periodic one).",
     ["inputs", "configurations"], "all lattice kinds, sizes, block sizes and system/environment splits",
     "No registered test compiles the geometry code.",
     ["src/Geometry/Geometry.h", "src/Geometry/GeometryTerm.h", "src/Geometry/LongChain.h", "src/Geometry/Ladder.h", "src/Geometry/LadderBath.h"],
     [("split and fringe", "src/Geometry/Geometry.h, src/Geometry/*.h")])

prop("O01", "Progress reports, profiles and redirected output lose and invent nothing",
     "Messages given to a progress indicator of the main thread appear once, in the order given, as \"CALLER [seconds]: text\", with seconds to three decimals that never decrease; other threads say nothing. Those given while buffering is on are kept besides, and turning it off leaves exactly them, in order, in the buffer's file; a stream given to be printed is empty afterwards. Memory reports give the current and peak size of the process. "
     "Nested profiling scopes report their beginning and end properly nested, an end being reported once whether requested or automatic. "
     "After standard output is redirected to a file, everything written later is in that file, in order, after its previous contents when appending and in place of them otherwise; a process that ends in an orderly way loses nothing, one that is killed leaves a prefix (everything when unbuffered); a redirection that fails is an error and changes nothing.",
     ["histories", "faults"], "all histories of messages over several indicators and buffer states, nestings of scopes, and writers ending in any way",
     "No registered test looks at what is reported.",
     ["src/ProgressIndicator.h", "src/ProgressIndicator.cpp", "src/Profiling.h", "src/RedirectOutput.hh", "src/AllocatorCpu.h"],
     [("messages and buffer", "src/ProgressIndicator.h"), ("scopes", "src/Profiling.h"), ("redirection", "src/RedirectOutput.hh")])

prop("O02", "Run records identify the run and state what the system reports",
     "Run identifications made by one process are unique and fixed; a run's record, printed or written to HDF5, states its name, identification, host and start, and the end only once finalized, with times between those of the calls. "
     "Setting environment variables from a NAME=VALUE list sets exactly those and reports each. The value found for an entry of a status file is that of the file at the last update, whole, for any layout and length of lines; entries that are absent are reported so. "
     "Sums and differences of times are exact to the microsecond. Limiting the process's memory sets the soft and hard limits that were asked for, and reading the limit gives them. The processor's vendor is what the processor says.",
     ["inputs", "configurations"], "all names, variables, status files, times and limits generated",
     "No registered test uses these.",
     ["src/ApplicationInfo.h", "src/MemoryUsage.h", "src/Limit.h", "src/MicroArchitecture.h", "src/BitManip.h"],
     [("record", "src/ApplicationInfo.h"), ("status file and times", "src/MemoryUsage.h"), ("limit", "src/Limit.h")])

prop("P01", "Tag files of the build configuration mean what their syntax says",
     "Reading a file of tags (= sets, += appends, =? sets if unset, =! sets or refuses if set, -= deletes occurrences and -=! refuses if there are none, = () forgets the tag; one-line values or blocks in parentheses; comments; any blanks) gives each tag the text that the statements applied in order say; further files continue from there. Malformed files, such as unclosed blocks and unknown operators, are refused. "
     "Building a flavor replaces each reference line (< tag) by that tag's content, recursively, and takes the escapes of the other lines off once; absent tags and tags that refer to themselves are refused. "
     "The makefile generated for a list of drivers has one rule for the object and one for the executable of each, with every dependency, the library's rule, and a cleaning rule that removes every executable.",
     ["inputs"], "all tag files of up to 14 lines and lists of drivers generated",
     "The Perl modules have no tests.",
     ["scripts/PsiTag.pm", "scripts/NewMake.pm"],
     [("reader and expansion", "scripts/PsiTag.pm"), ("makefile", "scripts/NewMake.pm")])

prop("P02", "Broadening a spectrum sums Lorentzians, and its inverse finds them again",
     "For every table of peaks (place, weight), the broadening script gives at each requested frequency x the sum over peaks of weight/((x-place)^2+delta^2), scaled, if asked for, to add up to a given number. From a finely sampled sum of well separated Lorentzians the inverse script finds each peak's place, weight and width, within the sampling. Missing files and tables with a line that does not have two fields are refused without output.",
     ["inputs"], "all tables of up to a few peaks, grids and widths generated",
     "The scripts have no tests.",
     ["scripts/lorentzian.pl", "scripts/naiztnerol.pl"],
     [("broadening", "scripts/lorentzian.pl"), ("inverse", "scripts/naiztnerol.pl")])

prop("P03", "The manual holds the documentation that the sources contain",
     "From a list of source files and a manual with paste lines, the documentation script writes a manual in which each paste of a label is replaced by exactly that label's text: of a documentation comment, of a comment continued after code, of a code block, or of the first prototype, the first function or a marked part of the function below a comment; texts that copy others are expanded to any depth, in whatever order and file the labels are defined. "
     "Files to be read are included as they are, or converted from markdown; comment lines are left out, and everything else is unchanged. The directories given for reading and for writing are used. A pasted label that does not exist is shown as an error in the manual; duplicate labels, labels copied that do not exist or that copy themselves, code blocks, marks and continued comments that are out of place, and missing files are refused, and no manual is written.",
     ["inputs", "faults"], "all sets of sources of up to dozens of blocks and manuals generated",
     "The script has no tests.",
     ["scripts/doc.pl"],
     [("labels", "scripts/doc.pl: loadLabels"), ("captures", "scripts/doc.pl: captureFirstProtoBelow, captureFirstFunctionBelow"), ("expansion", "scripts/doc.pl: recursiveExpand"), ("manual", "scripts/doc.pl: replaceLabels")])

prop("P04", "Documents hold the documentation that Doxygen found in the code",
     "From a Doxygen database and a document, PsimagDoc prints the document in which each paste of a class or file, or of a function or variable of one, is replaced by exactly its detailed documentation, with paragraphs separated and the mark for the class's name filled in, wherever on a line and however often it is pasted, and whatever else has the same name. "
     "Files to be read are included as they are, definitions of the paste commands are left out, and everything else is unchanged. Pasting a class, file, function or variable that does not exist, and reading a file that does not exist, are errors.",
     ["inputs", "faults"], "all databases of up to dozens of classes and files, and documents, generated",
     "The script has no tests.",
     ["PsimagDoc/psimagdoc.pl"],
     [("pastes", "PsimagDoc/psimagdoc.pl: main loop, findClassOrFile, findKind"), ("text", "PsimagDoc/psimagdoc.pl: getDetailed")])


def main():
    notes = {}
    nf = os.path.join(HERE, "tools", "notes.json")
    if os.path.exists(nf):
        notes = json.load(open(nf))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in P:
        n = notes.get(p["id"], {})
        if os.path.exists(os.path.join(HERE, "harness", p["id"] + ".cpp")) and not n.get("na"):
            checks.append({
                "property": p["id"],
                "quick_cmd": "python3 run.py %s --tier quick" % p["id"],
                "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": n.get("technique", "property-based testing: generated cases against an independent reference oracle, with shrinking"),
                "level": "exploration",
                "level_note": n.get("note", "Random search over generated inputs; finds violations within the generated sizes and never proves absence.")})
        else:
            na.append({"property": p["id"], "reason": n.get("na", "check not built yet")})
    m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
         "notes": "Checks are C++ property-based harnesses (harness/<ID>.cpp over harness/pbt.h) built by run.py from /repo's working tree."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")


if __name__ == "__main__":
    main()
