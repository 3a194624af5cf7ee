prop("C01", "Applying an operator to a vector computes the matrix-vector product",
     "Multiplying a sparse, coordinate, list-of-lists, dense, block matrix or block operator (or its transpose) with a vector gives, for every output index, the sum over the matrix entries times the input entries, with repeated entries counted once each and unset blocks counted as zero. This holds for every shape including empty and rectangular ones, whatever the output vector held before, and the input is left unchanged.",
     ["inputs"], "every matrix (shape, pattern, values, repeated entries, unset blocks) and every input and output vector of the right size",
     "the tests multiply a few fixed small matrices, mostly square and never with repeated entries or empty rows/blocks",
     ["include/operator.hpp", "src/operator.cpp", "include/sparsematrix.hpp", "include/coomatrix.hpp", "include/lilmatrix.hpp", "src/densematrix.cpp", "include/densematrix.hpp", "include/blockmatrix.hpp", "src/blockoperator.cpp"],
     [("operator interface", "include/operator.hpp Operator::Mult/MultAT"), ("row loops", "include/sparsematrix.hpp SparseMatrix::Mult"), ("BLAS call", "src/densematrix.cpp DenseMatrix::Mult")])
prop("C04", "Vector arithmetic, reductions and matrix scaling act entrywise as documented",
     "Every arithmetic operation on vectors and matrices (addition, subtraction, scaling, entrywise products and quotients, row and column scaling, diagonal shifts) changes each entry of its target exactly by the documented formula and nothing else. Every reduction (sum, inner product, norm, mean, extrema, comparison) returns the documented function of all entries.",
     ["inputs"], "every vector/matrix size and all entry values and scalars (nonzero divisors, nonempty vectors where an extremum or mean is taken)",
     "the tests compare a handful of printed vectors; an off-by-one, a missed entry or a wrong sign on other sizes is not sampled",
     ["include/vectorview.hpp", "include/vector.hpp", "src/vectorview.cpp", "include/sparsematrix.hpp", "include/densematrix.hpp", "src/densematrix.cpp"],
     [("entrywise loops", "include/vectorview.hpp"), ("row/column scaling", "include/sparsematrix.hpp SparseMatrix::ScaleRows"), ("dense operators", "src/densematrix.cpp")])

prop("C02", "Conversions, transposes and extractions represent the same matrix",
     "Converting a coordinate, list-of-lists, sparse or dense matrix to another storage format, transposing it, or extracting a diagonal, row, column or submatrix yields a matrix with the requested shape whose entry at every position is the sum of the source entries at the corresponding source position; converting coordinate or list-of-lists entries to sparse combines repeated positions, so that no row stores a column twice. Transposing a sparse matrix keeps its number of stored entries, and combining a block matrix into one sparse matrix places every set block at its offsets. Transposing a block matrix yields the transpose of every set block at the mirrored block position. Inserting a row, column or submatrix into a dense matrix changes exactly the addressed entries. Sources are left unchanged and a caller-supplied marker array is restored.",
     ["inputs"], "every matrix shape, sparsity pattern (including repeated coordinates for coordinate and list-of-lists matrices), values and every valid selection of rows and columns",
     "the tests convert and extract from a few fixed matrices; empty rows, unsorted or repeated entries and rectangular shapes are not sampled",
     ["include/sparsematrix.hpp", "include/coomatrix.hpp", "include/lilmatrix.hpp", "include/densematrix.hpp", "src/densematrix.cpp", "include/blockmatrix.hpp"],
     [("counting sort transpose", "include/sparsematrix.hpp SparseMatrix::Transpose"), ("marker based extraction", "include/sparsematrix.hpp SparseMatrix::GetSubMatrix"), ("dense blocks", "src/densematrix.cpp DenseMatrix::SetSubMatrix")])
prop("C03", "Matrix-matrix products compute the product for every shape",
     "Products of dense matrices (plain and all transposed variants, returning or writing into an output) of sparse with dense matrices, and of sparse with sparse matrices (with and without a caller-supplied marker array, a matrix with itself, and integer matrices) have the shape of the mathematical product and each entry is the sum over the inner dimension of the products of the operands' entries, whatever the output or marker held before. This includes shapes in which a dimension is zero, empty rows, and sparse products in which many terms meet in one entry.",
     ["inputs"], "every pair of conforming shapes including empty ones, all entry values, all previous contents of the output",
     "the tests multiply small nonempty matrices of a few shapes",
     ["src/densematrix.cpp", "include/densematrix.hpp", "include/sparsematrix.hpp"],
     [("BLAS call", "src/densematrix.cpp DenseMatrix::dgemm"), ("sparse times dense", "include/sparsematrix.hpp SparseMatrix::Mult"), ("sparse times sparse", "include/sparsematrix.hpp SparseMatrix::Mult(rhs, marker)")])
prop("C12", "BLAS and LAPACK are called within contract, results unpacked correctly",
     "Every call of DenseMatrix and EigenSolver into BLAS or LAPACK satisfies the routine's documented argument requirements (leading dimensions, array extents, work-space sizes, option letters) for every shape of matrix. The singular values, QR factor, inverse and eigenpairs returned to the caller are exactly the ones the routine delivers for the caller's matrix, in the shape and orientation documented, and a solver object can be used again for another matrix.",
     ["inputs", "histories"], "every matrix shape (tall, wide, square, minimal) and content; consecutive use of one solver object on different matrices",
     "the tests factor a few fixed square or tall matrices once",
     ["src/densematrix.cpp", "src/eigensolver.cpp", "include/eigensolver.hpp"],
     [("factorisations", "src/densematrix.cpp SVD/QR/Invert"), ("eigenpairs", "src/eigensolver.cpp EigenSolver::Solve")])
prop("C13", "The sparse direct solver solves with its own matrix and owns its factors",
     "For every square sparse matrix with at least one entry and no repeated positions, whatever the order of its stored entries, SparseSolver::Mult returns exactly the solution the factorisation library delivers for that matrix and right-hand side, and MultAT the one for the transposed matrix; a solver of a matrix without entries, or a default constructed one, returns zero. Copies, moved-to, assigned and swapped solvers solve with the matrix they took over, independently of the life of their source; the right-hand side is unchanged. Every factorisation is released exactly once, none is used after release, none is leaked, and every library call satisfies its documented requirements.",
     ["inputs", "histories"], "every square matrix size, pattern, entry order and values; every right-hand side; construct, copy, move, assign, self-assign, swap, solve and destroy in the orders listed in the specification",
     "the tests solve a few fixed systems with one freshly built solver and never look at released memory",
     ["modules/sparsesolver/include/sparsesolve.hpp", "modules/sparsesolver/src/sparsesolve.cpp"],
     [("factorisation", "modules/sparsesolver/src/sparsesolve.cpp SparseSolver::Init"), ("copy, move and swap", "modules/sparsesolver/src/sparsesolve.cpp swap"), ("solve", "modules/sparsesolver/src/sparsesolve.cpp SparseSolver::Mult")])
prop("C15", "Matrix and vector files are read and written in their documented formats",
     "Reading a text or binary file that follows the documented format (list of numbers, adjacency or coordinate list, edge list of a graph, MatrixMarket-style list with a general or symmetric header and comment lines, table, compressed rows) gives exactly the vector or matrix the file describes, for any number of lines: coordinates are zero based (one based in the MatrixMarket formats), repeated positions are added, a symmetric file contributes every off-diagonal entry at both positions and a diagonal one once. Writing produces exactly that format: every stored entry once, one line per entry (table: one line per row) with separated numbers, sizes and header first, real numbers with at least 16 digits, in symmetric mode only entries on or above the diagonal; binary files hold their blocks in the documented order and types. A file that cannot be opened makes every reader and writer throw.",
     ["inputs", "fault_sequences"], "every number of lines, entries per line, sizes, patterns and values; both symmetry modes; text and binary; a file that cannot be opened",
     "the tests read a few small fixed files and write one matrix without comparing the file",
     ["include/parser.hpp"],
     [("coordinate readers", "include/parser.hpp ReadAdjList/ReadCooList/ReadMTX"), ("writers", "include/parser.hpp WriteCooList/WriteMTX/WriteTable/WriteCSR"), ("binary files", "include/parser.hpp WriteBinary/ReadBinaryMat")])
prop("C14", "Printing shows exactly the entries an object holds",
     "Print, PrintDense and operator<< write the label on a line of its own, then exactly the entries of the object, each once and in their stored order, then an empty line: a vector one entry per line, a coordinate, list-of-lists or compressed-row matrix one line `(row, column) value` per stored entry, a dense matrix (and the dense view of a sparse or block matrix) one line per row with the entries in column order in the requested width and precision, a block matrix block after block, each labelled with its block position. Numbers do not run together, and the formatting state of the stream is left as it was.",
     ["inputs"], "every size (also empty rows and objects), pattern and value, width and precision",
     "no test looks at what is printed",
     ["include/vectorview.hpp", "include/sparsematrix.hpp", "include/coomatrix.hpp", "include/lilmatrix.hpp", "include/blockmatrix.hpp", "src/densematrix.cpp"],
     [("vector output", "include/vectorview.hpp Print, operator<<"), ("matrix output", "Print of each matrix class; src/densematrix.cpp DenseMatrix::Print")])
prop("C21", "Assembling coordinate and list matrices adds exactly the given contributions",
     "Adding a value, a vector along a row or column, a list of values, or a (scaled) dense block to a coordinate or list-of-lists matrix increases exactly the addressed positions by the given amounts; with AddSym both mirrored positions of an off-diagonal entry. Permuting rows or columns moves every entry to its permuted position, eliminating zeros drops exactly the entries of magnitude at most the tolerance, and a matrix of unspecified size reports the smallest size that holds all its entries.",
     ["inputs", "histories"], "every matrix content before the call, every index list, value and tolerance",
     "the tests assemble a few fixed element matrices; repeated indices, tolerances hit exactly and matrices without a given size are not sampled",
     ["include/coomatrix.hpp", "include/lilmatrix.hpp"],
     [("element assembly", "include/coomatrix.hpp CooMatrix::Add"), ("list assembly", "include/lilmatrix.hpp LilMatrix::Add"), ("zero removal", "include/coomatrix.hpp CooMatrix::EliminateZeros")])
prop("C19", "Sparse elimination, permutation, sorting and filtering act only where named",
     "On a sparse matrix without repeated positions: eliminating a row, a column, or both (by index or by marker) zeroes exactly the stored entries of the named rows and columns, EliminateRowCol leaving one on an eliminated stored diagonal entry; eliminating marked columns with a given solution and right-hand side subtracts exactly the removed contribution from the right-hand side. Permuting columns moves every entry to its permuted column, sorting orders each row without changing the matrix, and dropping small entries removes exactly those of magnitude at most the tolerance. The shape never changes.",
     ["inputs"], "every sparse matrix shape, pattern and values, every index, marker, permutation and tolerance",
     "the tests eliminate one row or column of one fixed matrix and compare printed output",
     ["include/sparsematrix.hpp", "src/sparsematrix.cpp"],
     [("elimination loops", "include/sparsematrix.hpp SparseMatrix::EliminateRowCol"), ("right-hand side update", "include/sparsematrix.hpp SparseMatrix::EliminateCol"), ("row compaction", "include/sparsematrix.hpp SparseMatrix::EliminateZeros"), ("sorting", "include/sparsematrix.hpp SparseMatrix::SortIndices")])
prop("C20", "Partitioning hands METIS the matrix's graph and returns gap-free labels",
     "Partitioning a square sparse matrix into at most as many parts as it has rows describes the graph of the matrix to METIS, whatever its pattern (no diagonal, isolated rows, no entries at all): one vertex per row, one neighbour per stored off-diagonal entry of the row, with weight one or, if weighted, the magnitude of the entry converted to an integer, together with the requested number of parts, unbalance factor and contiguity, and default settings for everything else. Every vertex gets the label METIS gave it, renumbered in the same order so that the labels in use are exactly 0, 1, 2, ...; a single part gives all zeros.",
     ["inputs", "configurations"], "every square sparse matrix, number of parts, unbalance factor, contiguity and weighting choice, and every labelling METIS may return",
     "the test partitions one fixed mesh graph and only looks at the printed labels",
     ["modules/partition/include/partition.hpp"],
     [("graph arrays", "modules/partition/include/partition.hpp MakeAdjacencyInfo"), ("renumbering", "modules/partition/include/partition.hpp RemoveEmpty"), ("METIS call", "modules/partition/include/partition.hpp Partition")])
prop("C11", "Valid operations only touch existing elements of live storage",
     "Every arithmetic, product, conversion, extraction, assembly, elimination and factorisation operation on vectors, dense, coordinate, list, sparse and block matrices and operators that is called with arguments of matching sizes and in-range indices reads and writes only elements inside the storage it works on. No operation dereferences an extremum of an empty range, uses a pointer into storage that was reallocated, reads a variable before it is set, or requests a negative size, for any shape including empty ones.",
     ["inputs"], "every shape (empty, minimal, rectangular), sparsity pattern and valid index selection; every operation covered by the functional properties",
     "the tests run a few small nonempty objects, without address checking",
     ["include/sparsematrix.hpp", "include/coomatrix.hpp", "include/lilmatrix.hpp", "include/densematrix.hpp", "src/densematrix.cpp", "include/vectorview.hpp", "include/blockmatrix.hpp", "src/blockoperator.cpp", "src/eigensolver.cpp"],
     [("row offsets", "include/sparsematrix.hpp indptr_/indices_/data_"), ("column-major indexing", "include/densematrix.hpp DenseMatrix::operator()"), ("work spaces", "src/eigensolver.cpp EigenSolver::AllocateWorkspace")])
prop("C05", "Copies are independent, moves transfer everything, swap exchanges everything",
     "Copying a vector, block vector, dense, sparse, coordinate, list-of-lists or block matrix (by construction or assignment) yields an object of the same shape and entries, and changing either one afterwards leaves the other unchanged. Moving transfers the whole value and leaves the source a valid object of size zero that can be assigned again; swapping exchanges the complete values of both objects (shape, entries, block offsets); assigning an object to itself changes nothing.",
     ["inputs", "histories"], "every shape and content of both objects, followed by a write to either; all classes that own storage",
     "the tests copy a few fixed objects and rarely look at the source afterwards; views into shared storage survive most unit tests",
     ["include/vector.hpp", "include/vectorview.hpp", "include/blockvector.hpp", "include/sparsematrix.hpp", "include/coomatrix.hpp", "include/lilmatrix.hpp", "include/densematrix.hpp", "src/densematrix.cpp", "include/blockmatrix.hpp", "include/operator.hpp", "src/operator.cpp"],
     [("owning vector", "include/vector.hpp Vector copy/move/swap"), ("operator base", "src/operator.cpp swap(Operator&, Operator&)"), ("matrix members", "include/sparsematrix.hpp swap")])
prop("C06", "Constructed and resized objects hold exactly the given or documented contents",
     "Constructing a vector or matrix from data, from a size and a value, from a view or a list, and resizing one, gives exactly the requested shape; the entries are the given ones (in the documented order), kept where documented as kept and equal to the given value where newly created. A vector and the storage it owns never disagree: after any construction, assignment, resize, copy, move or swap its size and elements are those of its own storage, and the same for its data seen as a view. Assigning a view of any length to an owning vector resizes it.",
     ["inputs", "histories"], "every size before and after, all contents, all constructor and assignment forms",
     "the tests construct objects of a few sizes and never shrink or grow one with contents",
     ["include/vector.hpp", "include/vectorview.hpp", "include/blockvector.hpp", "include/densematrix.hpp", "src/densematrix.cpp", "include/sparsematrix.hpp", "include/coomatrix.hpp", "include/lilmatrix.hpp"],
     [("view and storage", "include/vector.hpp Vector::SetSize"), ("shape constructors", "include/densematrix.hpp DenseMatrix ctors")])
prop("C08", "Mismatched sizes and bad indices are rejected before anything is modified",
     "In builds with assertions enabled, applying a matrix or operator to vectors of the wrong length, combining vectors or matrices of different shapes, multiplying non-conforming matrices, addressing an element, row, column, block or range outside the object (negative as well as too large), passing factor, marker or permutation arrays of the wrong size, assembling outside the matrix size or with index lists that do not fit the values, building a matrix from inconsistent arrays, giving a solver an operator or preconditioner that is not square or does not fit, setting a block of the wrong shape, constructing a matrix of negative size, dividing by the value 0, reducing an empty vector or dense matrix to its sum, maximum or minimum, partitioning into no parts or more parts than rows, or giving the partitioner or direct solver a rectangular matrix stops with a failed assertion (or an exception) before any operand has been modified. Scale factors of 0, permutation entries and selected positions outside the object are rejected when their turn comes.",
     ["inputs"], "every combination of operand sizes and index values that violates the documented requirement, for each of the operations",
     "no test calls an operation with wrong arguments; whether an assertion guards all of them depends on every size combination",
     ["include/vectorview.hpp", "include/vector.hpp", "include/blockvector.hpp", "include/sparsematrix.hpp", "include/coomatrix.hpp", "include/lilmatrix.hpp", "include/densematrix.hpp", "src/densematrix.cpp", "include/blockmatrix.hpp", "src/blockoperator.cpp", "src/vectorview.cpp", "modules/partition/include/partition.hpp", "modules/sparsesolver/src/sparsesolve.cpp"],
     [("operand checks", "assert statements at the head of Mult/MultAT/operators"), ("index checks", "include/vectorview.hpp operator[]")])
prop("C07", "Every constructor leaves every member of an object determinate",
     "Each constructor (default, sized, from data, copy and move) of the vectors, matrices, block objects, operators, eigensolver, iterative solvers and the sparse direct solver gives a value to every member of the new object, and a move leaves every member of its source with a value. So no default-constructed, copied or moved-from object ever carries an indeterminate size, flag, tolerance, iteration count, pointer or factorisation handle.",
     ["inputs", "histories"], "every constructor of every class, all argument values, including the state of the source of a move",
     "an indeterminate member usually holds a harmless value in a test; only memory-content dependent runs show it",
     ["include/solvers.hpp", "src/solvers.cpp", "include/operator.hpp", "src/operator.cpp", "include/coomatrix.hpp", "include/lilmatrix.hpp", "include/blockvector.hpp", "include/vectorview.hpp", "include/eigensolver.hpp", "modules/sparsesolver/include/sparsesolve.hpp"],
     [("member initialisers", "src/solvers.cpp Solver::Solver()"), ("handle ownership", "modules/sparsesolver/src/sparsesolve.cpp")],
     technique="definite-initialisation analysis of every constructor by abstract interpretation")
prop("C16", "Iterative solvers perform the documented iteration, limit and stopping test",
     "For every square operator A, preconditioner M, inner product function, right-hand side and initial guess, PCGSolver, MINRESSolver and PMINRESSolver (and CG, PCG, MINRES, PMINRES) compute the iterates of the preconditioned conjugate gradient and (preconditioned) minimal residual methods with exactly that operator, preconditioner and inner product, starting from the given guess and leaving the right-hand side unchanged. They stop at the first iterate whose monitored residual measure is within the tolerance (the larger of the relative one and the absolute one), never after more than max_iter iterations (none for max_iter 0 or an exact guess), and report the number of iterations performed. The result does not depend on earlier solves with the same object; settings changed later and copied, moved, assigned or swapped solvers act accordingly.",
     ["inputs", "histories"], "every operator, preconditioner and inner product action, vector contents and size, tolerances, contents of the work vectors; iteration limits 0 to 3 (every state variable of the recurrences takes part), 4 in the thorough tier",
     "the tests solve one or two systems to convergence, where a wrong iteration count, stale work vector or ignored preconditioner only changes the speed",
     ["include/solvers.hpp", "src/solvers.cpp"],
     [("conjugate gradients", "src/solvers.cpp PCGSolver::Mult"), ("Lanczos/Givens recurrences", "src/solvers.cpp MINRESSolver::Mult, PMINRESSolver::Mult"), ("solver state", "src/solvers.cpp swap, Solver::Set*")],
     note="bounded in the number of iterations (unrolled); unbounded in sizes, contents and the actions of operator, preconditioner and inner product, which are uninterpreted")
prop("C09", "Operations leave const objects and const reference arguments unchanged",
     "Every const member function and every function taking a vector, matrix, operator or index list by const reference leaves that object exactly as it was: same shape, same entries, same storage contents. A list matrix kept in mutable storage may be reordered but stands for the same matrix. This covers products, reductions, conversions, extractions, factorisations returning a new object, assembly from an index list or dense block, and the iterative solvers (matrix, preconditioner and right-hand side).",
     ["inputs"], "every operation covered by the functional properties, all shapes, contents and index selections",
     "the tests look at results and seldom compare the operands afterwards; views and mutable or const_cast access make a write to an operand compile",
     ["include/sparsematrix.hpp", "include/coomatrix.hpp", "include/lilmatrix.hpp", "include/densematrix.hpp", "src/densematrix.cpp", "include/vectorview.hpp", "include/blockmatrix.hpp", "src/blockoperator.cpp", "src/eigensolver.cpp", "src/solvers.cpp"],
     [("mutable entry lists", "include/coomatrix.hpp entries_"), ("const views", "include/densematrix.hpp DenseMatrix::GetColView const"), ("in-place LAPACK", "src/densematrix.cpp DenseMatrix::SVD")],
     technique="frame (effect) analysis: abstract interpretation of every call, storage reachable from const arguments before and after")
prop("C18", "The public interface is complete and usable from any program",
     "Every public header of the library and of the partition and sparse solver modules compiles when it is the only one a source includes, and may be included from several sources of one program (everything it defines is inline or a template). Every function, member and operator declared in the headers is defined exactly once. Every member of the vector, view and matrix class templates compiles for double and for int, and every documented operation compiles when called with the argument types it declares.",
     ["programs", "configurations"], "every header, every declared function, every member of every class template for both scalar types, one caller per public operation",
     "the tests include one umbrella header in one source file and instantiate only the members they call; a template member nobody calls is never compiled",
     ["include/linalgcpp.hpp", "include/utilities.hpp", "include/operator.hpp", "include/blockoperator.hpp", "include/parser.hpp", "include/densematrix.hpp", "include/sparsematrix.hpp", "include/vector.hpp", "modules/partition/include/partition.hpp", "modules/sparsesolver/include/sparsesolve.hpp"],
     [("headers", "include/*.hpp"), ("declarations and definitions", "include/*.hpp against src/*.cpp"), ("class templates", "explicit instantiation for double and int")],
     technique="compile witnesses (each header alone, explicit instantiation, one caller per operation) and a declaration/definition/linkage analysis of the syntax trees")
prop("C10", "Solvers converge and factorisations are accurate in floating point",
     "For a symmetric positive definite matrix and preconditioner CG and PCG reach the requested relative residual within the iteration limit implied by the condition number; MINRES does so for symmetric systems; computed eigenpairs, singular values, QR factors, inverses and direct solutions satisfy their defining equations up to a small multiple of machine precision times the norm of the matrix.",
     ["inputs"], "every system whose condition number and size allow it, all right-hand sides and initial guesses",
     "the tests solve a few fixed well conditioned systems",
     ["src/solvers.cpp", "src/eigensolver.cpp", "src/densematrix.cpp", "modules/sparsesolver/src/sparsesolve.cpp"],
     [("iterations", "src/solvers.cpp"), ("LAPACK and UMFPACK calls", "src/densematrix.cpp, src/eigensolver.cpp, modules/sparsesolver/src/sparsesolve.cpp")])
NA.append(("C10", "convergence and backward error depend on condition numbers and rounding of run-time values (and on LAPACK and UMFPACK, of which no source is analysed); no sound static bound is in reach. The arithmetic of every iteration, stopping test, library call and unpacking is decided under C12, C13 and C16."))
prop("C17", "Command line options reach the arguments they are meant for",
     "For every command line, ArgParser gives each requested argument the value that follows the first occurrence of its flag, leaves an argument without such a value alone, sets a boolean exactly when its flag is present or reads its value, and reports repeated flags, repeated requests and a request for help as not good.",
     ["inputs", "histories"], "every argument vector and every sequence of Parse calls",
     "the tests parse one fixed command line",
     ["include/argparser.hpp", "src/argparser.cpp"],
     [("splitting of the command line", "src/argparser.cpp ArgParser::ArgParser"), ("conversion", "include/argparser.hpp ArgParser::Parse")])
NA.append(("C17", "the parser walks the words with a data dependent step and fills maps keyed by the words themselves: the domain (closed forms over index ranges) has no summary for such a loop, and the attempt to give it one (words as identifiers, the walk as a recurrence) ended with every observation undecided; a rule on the syntax alone would judge how the code is written"))
prop("C22", "Randomised entries are drawn from the documented distribution",
     "Randomize fills every entry of a vector or dense matrix with a number between the given bounds (uniformly distributed), and a nonnegative seed gives the same numbers in every run.",
     ["inputs", "configurations"], "every size, bounds and seed",
     "a distribution cannot be established by a handful of samples",
     ["src/vectorview.cpp", "include/vectorview.hpp", "src/densematrix.cpp"],
     [("generator", "src/vectorview.cpp Randomize")])
NA.append(("C22", "a statement about the numbers the standard library's generators produce at run time, whose source is not analysed and whose sequence is implementation defined"))
