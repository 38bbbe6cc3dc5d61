SIMNOTE = ("Ranks run as fibers of one process over a simulated MPI (sim/src/simmpi.cpp) with seeded schedules; "
           "assumes the simulated MPI behaves as the MPI standard says. ")

prop("C01", "2D indices, sizes and their linearisation agree with plain arithmetic",
     "For every grid shape and both row-major and column-major ordering, converting a position to a linear index and back is a bijection onto the grid, in the right order, whatever integer width is used, and positions outside the grid are reported or refused. Sums, differences, products, transpositions, comparisons and containment tests of indices and sizes give exactly the component-wise results.",
     ["inputs"], "all grid shapes, positions, orderings and integer types for which the quantities are representable",
     "The tests use a dozen fixed grids with one index type; off-by-one errors at edges, mixed-sign values, other integer widths and large extents are never sampled.",
     ["include/dlaf/common/index2d.h", "include/dlaf/matrix/index.h", "include/dlaf/communication/index.h"],
     [("linear index / coordinates conversion", "include/dlaf/common/index2d.h"), ("component-wise operators", "include/dlaf/common/index2d.h")],
     "Random search against a component-wise model in wide arithmetic; bounded by the generated magnitudes.")

prop("C02", "Iteration over 2D ranges visits every index exactly once, in order",
     "Iterating over a rectangle of indices, given as a size, a begin and a size, or a begin and an end, visits every index inside exactly once in column-major order and nothing else; empty rectangles visit nothing and inverted ones are refused. Iterators can be copied, advanced and compared at any point with consistent results.",
     ["inputs"], "all rectangles with non-negative extents, including empty, one-line and far from the origin",
     "The tests iterate over a few small fixed rectangles.",
     ["include/dlaf/common/range2d.h"], [("IterableRange2D, iterate_range2d", "include/dlaf/common/range2d.h")],
     "Random search against nested loops.")

prop("C03", "Block-cyclic index mapping is a partition with mutually inverse maps",
     "For every tile size, grid size, source rank and rank, each global element and tile index belongs to exactly one rank and one local position, all conversions between global element, global tile, local tile and position in tile agree with the block-cyclic definition and are mutually inverse where defined, and the first local tile at or after any global tile is the true next one. A position that is not on a rank is reported as such.",
     ["inputs", "configurations"], "all distribution parameters for which the arithmetic is representable, from 1x1 grids to indices near the integer limits",
     "A table of about twenty hand-made parameter sets is tested; wrap-around with source rank offsets, tile boundaries and huge indices are not covered.",
     ["include/dlaf/matrix/util_distribution.h"],
     [("element/tile/rank conversions", "include/dlaf/matrix/util_distribution.h")],
     "Random search against a brute-force walk over all tiles and, for huge indices, against 128-bit arithmetic.")

prop("C04", "Integer conversions and small math helpers are exact or refuse",
     "Converting an integer to another type gives the same value or ends with an assertion, never a silently different value; sums and products that mix types do the same for their operands. Rounded-up division, interleaved split points, percentage to index, sign comparison, round-robin selection and the signed-size vector give the mathematically defined result for every representable argument.",
     ["inputs"], "all values of all integer types, all lengths, block sizes and offsets, all percentages",
     "Unit tests check a few constants and a hand-written list of limits.",
     ["include/dlaf/types.h", "include/dlaf/util_math.h", "include/dlaf/common/round_robin.h", "include/dlaf/common/vector.h"],
     [("checked conversions", "include/dlaf/types.h"), ("math helpers", "include/dlaf/util_math.h"), ("round robin", "include/dlaf/common/round_robin.h")],
     "Random search with boundary bias against 128-bit arithmetic and set models; rejection is observed in a forked child.")

prop("C05", "Strided data descriptions and copies touch exactly the described elements",
     "A description of memory as blocks, block size and stride denotes exactly those elements in order, is called contiguous exactly when they are, and copying between two descriptions of equal size moves every element to its counterpart and changes nothing else. Temporary contiguous stand-ins are allocated exactly when needed and have the right size. Descriptions may be types of the user; negative sizes and copies between different numbers of elements are refused.",
     ["inputs"], "all element types, shapes, strides and pairs of shapes with the same number of elements",
     "The tests copy between a handful of fixed shapes and do not look at the memory between the blocks.",
     ["include/dlaf/common/data.h", "include/dlaf/common/data_descriptor.h"],
     [("DataDescriptor, Buffer", "include/dlaf/common/data_descriptor.h"), ("copy, make_contiguous, make_data", "include/dlaf/common/data.h")],
     "Random search against element lists; out-of-bounds accesses are seen by AddressSanitizer.")

prop("C06", "Messages carry exactly the described data and datatypes never leak",
     "Sending any strided or contiguous description of any supported element type to a peer that describes the same number of elements in any other way delivers every element in order and touches nothing else, whether the other side uses the library or plain message passing. Every communication datatype made for a message is released exactly once, whatever sequence of moves, assignments and destructions the message goes through (it cannot be copied). A description that message passing cannot count is refused, never cut.",
     ["inputs", "histories", "schedules"], "all element types, shapes on both sides, programs of blocking transfers among several ranks, and histories of message objects",
     "The tests check type sizes and one move each; nothing is ever sent through the non-contiguous types and no test counts datatypes.",
     ["include/dlaf/communication/message.h", "include/dlaf/communication/type_handler.h", "include/dlaf/communication/datatypes.h", "include/dlaf/communication/sync/basic.h", "include/dlaf/communication/sync/broadcast.h", "src/communication/datatypes.cpp"],
     [("Message", "include/dlaf/communication/message.h"), ("type_handler", "include/dlaf/communication/type_handler.h"), ("send_to / receive_from", "include/dlaf/communication/sync/basic.h")],
     SIMNOTE + "Leaked, double freed and uncommitted datatypes, mismatched signatures and modified send buffers are reported by the simulated MPI.",
     "stateful property-based testing over a simulated MPI with seeded schedules")

prop("C07", "Communicators: identity, ownership, clone isolation, errors never ignored",
     "All copies of a communicator refer to the same group with the same rank and size; an owned communicator is released exactly when its last copy goes, a borrowed one never; a clone has the same members but its traffic never mixes with the original's; null and world communicators cannot be owned. An error returned by any message passing call made by the library terminates the job with a failure status and the text of the error instead of being ignored. Message passing that does not support threads calling at any time is refused at start-up, and it is finalized exactly once.",
     ["histories", "schedules", "fault_sequences"], "all histories of wrap, own, copy, move, clone and destroy over splits of the ranks, and all single failing calls of generated communication programs",
     "The tests have one copy, one clone and one split; no test makes an MPI call fail or counts communicators.",
     ["include/dlaf/communication/communicator.h", "src/communication/communicator.cpp", "src/communication/communicator_impl.cpp", "include/dlaf/communication/error.h", "include/dlaf/communication/init.h"],
     [("shared communicator handle", "src/communication/communicator_impl.cpp"), ("error check", "include/dlaf/communication/error.h")],
     SIMNOTE + "Faults are single failing MPI calls.",
     "model-based testing of histories and fault injection over a simulated MPI")

prop("C08", "Blocking reductions combine every rank's data and nothing else",
     "A blocking reduce or all-reduce, in place or not, gives on the receiving ranks the element-wise combination of the contributions of all members, for every operation, element type and memory layout on each side, and leaves inputs, gaps between blocks and the output of other ranks untouched. A root outside of the group, or the same memory as input and output, is refused.",
     ["inputs", "schedules", "configurations"], "all element types and operations, layouts drawn independently per rank, sub-communicators, roots and sequences of reductions",
     "The tests use one type, one operation and four layouts on a fixed number of ranks (and are not part of the tests that run here).",
     ["include/dlaf/communication/sync/reduce.h", "include/dlaf/communication/sync/all_reduce.h"],
     [("reduce family", "include/dlaf/communication/sync/reduce.h"), ("allReduce family", "include/dlaf/communication/sync/all_reduce.h")],
     SIMNOTE, "property-based testing over a simulated MPI with seeded schedules")

prop("C09", "Single-threaded BLAS scopes nest and always restore the thread count",
     "Inside a single-threaded scope the calling thread uses one OpenMP thread; when the scope ends, normally or by an exception, the thread count is what it was when the scope began, for any nesting and sequence of scopes and settings, and other threads are not affected. Ending a scope on a thread other than the one it began on is refused.",
     ["histories"], "all nestings and sequences of scopes, settings and exceptions on one or several threads",
     "One test opens one scope.",
     ["include/dlaf/common/single_threaded_blas.h", "src/common/single_threaded_blas.cpp"],
     [("SingleThreadedBlasScope", "src/common/single_threaded_blas.cpp")],
     "Random histories against a stack model. MKL's own setting cannot be exercised (MKL is not installed).",
     "model-based testing of histories")

prop("C10", "Textual names of options are faithful, distinct and read back",
     "Writing a BLAS or LAPACK option, device, backend, norm or column type to a stream yields the standard name of exactly that value, in the short form the standard letter, and leaves the stream usable; reading a triangle letter accepts exactly the standard letters in either case. Lower-casing a string changes ASCII capitals only, for any bytes.",
     ["inputs"], "all values, sequences of values on one stream, all characters, all byte strings",
     "No test looks at the names; the string helper is tested with a few words.",
     ["include/dlaf/blas/enum_output.h", "include/dlaf/blas/enum_parse.h", "include/dlaf/lapack/enum_output.h", "include/dlaf/common/format_short.h", "include/dlaf/eigensolver/tridiag_solver/coltype.h", "include/dlaf/util_string.h", "include/dlaf/types.h"],
     [("stream operators", "include/dlaf/blas/enum_output.h"), ("copy_to_lower", "include/dlaf/util_string.h")],
     "Names are compared with those of blaspp/lapackpp; the value spaces are small and in effect enumerated.")

prop("C11", "Thin BLAS/LAPACK wrappers do exactly the named operation",
     "Scaling a complex vector by a real number multiplies exactly the strided elements; copying or setting a triangle of a matrix changes exactly the elements of that triangle (with the diagonal value on the diagonal) and nothing else. Lengths the BLAS integer cannot hold are refused instead of truncated.",
     ["inputs"], "all precisions, lengths, strides, leading dimensions, triangles and values",
     "The tests reach these wrappers only through algorithms that do not run here, with unit stride.",
     ["include/dlaf/blas/scal.h", "src/blas/scal.cpp", "include/dlaf/util_lapack.h"],
     [("scal", "src/blas/scal.cpp"), ("lacpy, laset by triangle", "include/dlaf/util_lapack.h")],
     "Random search against element-wise models; trusts OpenBLAS and lapackpp.")

prop("C12", "Call adapters and type helpers forward and transform faithfully",
     "An adapter that consumes temporaries calls the function with the same values and value categories, without copies, and destroys every temporary before the call returns, also when it throws; function objects and in-place factories behave exactly as the functions they wrap. Type-list operations, operation counts, conjugation and elapsed times follow their definitions.",
     ["inputs", "programs"], "all argument lists of up to three arguments in every combination of value categories, all type lists over a small alphabet, all element types and clock readings",
     "No test covers the adapters; type helpers are only used indirectly.",
     ["include/dlaf/common/consume_rvalues.h", "include/dlaf/common/callable_object.h", "include/dlaf/common/with_result_of.h", "include/dlaf/sender/typelist.h", "include/dlaf/types.h", "include/dlaf/common/timer.h"],
     [("ConsumeRvalues", "include/dlaf/common/consume_rvalues.h"), ("UniquePack, TransformPack, Contains", "include/dlaf/sender/typelist.h")],
     "Objects count their lives; 400 type lists are drawn at compile time and judged by a sequence model.")

prop("C13", "Assertions: violated means diagnosed and terminated, otherwise no effect",
     "A violated enabled assertion terminates the process with a diagnostic that names the place, the expression and every given value, and so do the markers for unimplemented, invalid and unreachable cases. An assertion that holds evaluates its expression exactly once and does nothing else; a disabled assertion evaluates nothing.",
     ["inputs", "configurations"], "all assertion levels and markers, expressions and values, enabled or disabled",
     "The tests only rely on assertions; nothing checks what a violated or a disabled one does.",
     ["include/dlaf/common/assert.h", "include/dlaf/common/source_location.h"],
     [("assert macros", "include/dlaf/common/assert.h")],
     "Each violated assertion runs in a forked child whose diagnostics are captured.")

prop("C14", "A distribution places every element on one rank with consistent maps",
     "For every matrix size, block and tile size, process grid, source rank and offset, however constructed, a distribution assigns each element to exactly one rank, tile and position following the block-cyclic rule, every query (tile counts and sizes, local sizes, all conversions between global and local elements and tiles) agrees with that assignment on every rank, and equality means the same assignment. Inconsistent parameters are refused.",
     ["inputs", "configurations"], "all distribution parameters, including offsets inside tiles and blocks, several tiles per block, empty matrices and sizes near 2^40",
     "Hand-made tables of parameters are tested; the partition over all ranks and the combination of offsets, multi-tile blocks and source ranks is not.",
     ["include/dlaf/matrix/distribution.h", "src/matrix/distribution.cpp"],
     [("Distribution constructors", "src/matrix/distribution.cpp"), ("index conversions", "include/dlaf/matrix/distribution.h")],
     "Random search against an element-by-element walk of the block-cyclic rule, and against closed forms for huge sizes.")

prop("C15", "Sub-distributions and cross-rank queries agree with the parent distribution",
     "A window of a distribution keeps every element on the rank and in the tile where the parent has it; a window of a window is the direct window; tile indices and offsets of a window map back to the parent. Questions a rank asks about other ranks (their local tiles and elements), distances between tiles, linear tile indices and the one-tile-per-block form agree with what the other ranks compute. Windows outside of the matrix are refused.",
     ["inputs", "configurations"], "all parents with offsets and multi-tile blocks, all windows inside them, all ranks of the grid",
     "Tests use hand-made windows of a few distributions and never compare two ranks' answers.",
     ["include/dlaf/matrix/distribution.h", "include/dlaf/matrix/distribution_extensions.h", "src/matrix/distribution.cpp"],
     [("sub-distribution constructor", "src/matrix/distribution.cpp"), ("extensions", "include/dlaf/matrix/distribution_extensions.h")],
     "Random search against an element-by-element walk of the parent.")

prop("C17", "Pipelines and communicator grids order every access and never mix messages",
     "Accesses to a pipelined resource run in the order in which they were requested: reads may share, writes are exclusive, a sub-pipeline takes its place in the order as a whole, and nobody ever sees a moved-away or stale value, for every history of requests, copies, drops, sub-pipelines, assignments and every schedule. A communicator grid puts every process at the documented place and each of its row, column and full pipelines carries its messages without mixing with any other, round robin or clone. Grids larger than the communicator are refused.",
     ["histories", "schedules", "configurations"], "all histories of reads, writes, sub-pipelines, drops and assignments; all grid shapes, orders and pipeline counts; all schedules",
     "Tests check single accesses on fixed grids; order and exclusivity under all schedules cannot be sampled by them, and the pipeline code does not run in the baseline tests.",
     ["include/dlaf/common/pipeline.h", "include/dlaf/communication/communicator_grid.h", "include/dlaf/communication/communicator_pipeline.h", "include/dlaf/common/round_robin.h", "src/communication/communicator_grid.cpp", "include/dlaf/sender/transform_mpi.h"],
     [("Pipeline", "include/dlaf/common/pipeline.h"), ("CommunicatorGrid", "src/communication/communicator_grid.cpp")],
     "Stateful model-based testing against the program-order tree of accesses, on a deterministic simulation of tasks and MPI. Trusts the stand-in for pika's async_rw_mutex.",
     "stateful property-based testing on a simulated cluster with seeded schedules")

ALG = "stateful property-based testing on a simulated cluster with seeded schedules, numerical oracles"
ALGNOTE = ("The library's algorithm sources are compiled against a stand-in for pika, Umpire and MPI, and run on a simulated cluster whose task order, "
           "rank order and message progress come from the case; deadlocks, leaks of memory, misuse of MPI and wrong results are violations. double and complex<double>, matrices up to about 40, grids up to 6 ranks; no GPU.")

prop("C23", "Cholesky factorization is correct on every grid, layout and schedule",
     "For every Hermitian positive definite matrix given by either triangle, for every size, block size, process grid, source rank and allocation, locally or distributed, the factorization terminates on all ranks and returns the triangular factor with positive diagonal whose product with its conjugate transpose is the matrix up to rounding. Elements of the other triangle are neither used nor changed, and several factorizations in flight do not disturb each other. A matrix that is not positive definite (a pivot that is not positive) ends the program with a diagnosis and never yields a factor.",
     ["inputs", "configurations", "schedules"], "all sizes (including empty and not a multiple of the block), grids, source ranks, allocations, both triangles and element types, all task and message schedules",
     "The algorithm does not run in the baseline tests, and tests can only sample one schedule of a few sizes.",
     ["include/dlaf/factorization/cholesky.h", "include/dlaf/factorization/cholesky/impl.h", "include/dlaf/communication/broadcast_panel.h", "include/dlaf/matrix/panel.h"],
     [("call_L, call_U", "include/dlaf/factorization/cholesky/impl.h")],
     ALGNOTE, ALG)

def alg(id, title, statement, files, mech, text="all sizes (including empty and not a multiple of the block), grids, source ranks, allocations and element types, all task and message schedules"):
    prop(id, title, statement, ["inputs", "configurations", "schedules"], text,
         "The algorithm does not run in the baseline tests, and tests can only sample one schedule of a few sizes.",
         files, mech, ALGNOTE, ALG)


alg("C24", "Inverse of triangular and of factored matrices is correct on every grid",
    "For every nonsingular triangular matrix (either triangle, unit or stored diagonal) the in-place inverse is its inverse up to rounding, and for every Cholesky factor the in-place inverse-from-factor is the given triangle of the inverse of the factored Hermitian positive definite matrix; for every size, block size, process grid, source rank and allocation, locally or distributed, it terminates on all ranks, and elements of the other triangle (and a unit diagonal) are neither used nor changed. A zero on the stored diagonal ends the program with a diagnosis and never yields an inverse.",
    ["include/dlaf/inverse/triangular.h", "include/dlaf/inverse/triangular/impl.h", "include/dlaf/inverse/cholesky.h", "include/dlaf/inverse/cholesky/impl.h"],
    [("Triangular", "include/dlaf/inverse/triangular/impl.h"), ("AssembleCholeskyInverse", "include/dlaf/inverse/cholesky/impl.h")])
alg("C25", "Triangular solve and triangular multiplication are correct on every grid",
    "For every side, triangle, operation, diagonal kind and scalar, the triangular solver overwrites the right hand side with a solution of op(A) X = alpha B (or X op(A) = alpha B), and the triangular multiplication overwrites it with the product alpha op(A) B (or alpha B op(A)), up to rounding; for every size, block size, process grid, source rank and allocation, locally or distributed, also for a right hand side that is a window of a larger matrix. The triangular matrix is read only, its other triangle (and a unit diagonal) is never used, and nothing outside of the right hand side is changed.",
    ["include/dlaf/solver/triangular.h", "include/dlaf/solver/triangular/impl.h", "include/dlaf/multiplication/triangular.h", "include/dlaf/multiplication/triangular/impl.h"],
    [("solver call_*", "include/dlaf/solver/triangular/impl.h"), ("multiplication call_*", "include/dlaf/multiplication/triangular/impl.h")])
alg("C27", "Reduction to the standard eigenproblem is correct on every grid",
    "For every Hermitian matrix A and every triangular factor of a positive definite matrix, both given by the same triangle, the transformation overwrites that triangle of A with inv(L) A inv(L)^H (or inv(U)^H A inv(U)) up to rounding; for every size, block size, process grid, source rank and allocation, locally or distributed, it terminates on all ranks, the factor is left as it was, and elements of the other triangles are neither used nor changed.",
    ["include/dlaf/eigensolver/gen_to_std.h", "include/dlaf/eigensolver/gen_to_std/impl.h"],
    [("GenToStd::call_L, call_U", "include/dlaf/eigensolver/gen_to_std/impl.h")])

alg("C26", "General and Hermitian matrix products are correct on every grid",
    "The general product C = alpha A B + beta C (also restricted to a range of tiles, and distributed) and the Hermitian product C = alpha A B + beta C with A given by one triangle return the product up to rounding for every scalar (also zero, where C is not read); for every size, block size, process grid, source rank and allocation. Operands are read only, the other triangle of a Hermitian operand is never used, and nothing outside of the result is changed.",
    ["include/dlaf/multiplication/general.h", "include/dlaf/multiplication/general/impl.h", "include/dlaf/multiplication/hermitian.h", "include/dlaf/multiplication/hermitian/impl.h"],
    [("General, GeneralSub", "include/dlaf/multiplication/general/impl.h"), ("Hermitian", "include/dlaf/multiplication/hermitian/impl.h")])
alg("C28", "Reduction to band form and its back transformation are correct on every grid",
    "For every Hermitian matrix and band size dividing the block, the reduction returns a band matrix and Householder reflectors whose product reproduces the matrix: the transformation they define is unitary and takes the matrix to the band up to rounding. The back transformation applies exactly that unitary matrix to any matrix or window of columns. For every size, block size, process grid, source rank and allocation it terminates on all ranks; reflectors and scalars are the same wherever they are replicated; elements of the other triangle are neither used nor changed.",
    ["include/dlaf/eigensolver/reduction_to_band.h", "include/dlaf/eigensolver/reduction_to_band/impl.h", "include/dlaf/eigensolver/bt_reduction_to_band.h", "include/dlaf/eigensolver/bt_reduction_to_band/impl.h"],
    [("ReductionToBand::call", "include/dlaf/eigensolver/reduction_to_band/impl.h"), ("BackTransformationReductionToBand::call", "include/dlaf/eigensolver/bt_reduction_to_band/impl.h")])
alg("C29", "Band to tridiagonal reduction and its back transformation are correct",
    "For every Hermitian band matrix the reduction returns a real tridiagonal matrix, the same on all ranks, and reflectors such that the unitary matrix they define takes the band matrix to the tridiagonal one up to rounding; the back transformation applies exactly that unitary matrix to any matrix or leading window of columns. For every size, band, block size, process grid, source rank, number of threads and tuning of the block and group sizes it terminates on all ranks, the band matrix is only read and elements outside of the band are not used.",
    ["include/dlaf/eigensolver/band_to_tridiag.h", "include/dlaf/eigensolver/band_to_tridiag/mc.h", "include/dlaf/eigensolver/internal/get_1d_block_size.h", "include/dlaf/eigensolver/bt_band_to_tridiag.h", "include/dlaf/eigensolver/bt_band_to_tridiag/impl.h"],
    [("BandToTridiag::call_L", "include/dlaf/eigensolver/band_to_tridiag/mc.h"), ("BackTransformationT2B::call", "include/dlaf/eigensolver/bt_band_to_tridiag/impl.h")])
alg("C30", "The tridiagonal eigensolver returns the full spectrum on every grid",
    "For every real symmetric tridiagonal matrix, whatever its scale and however its eigenvalues cluster or its couplings vanish, the divide and conquer solver returns all eigenvalues in ascending order to within rounding of the norm of the matrix, the same on all ranks, and an orthogonal matrix of eigenvectors with small residual; for real and complex vectors, for every size, block size, process grid, source rank and allocation it terminates on all ranks.",
    ["include/dlaf/eigensolver/tridiag_solver.h", "include/dlaf/eigensolver/tridiag_solver/impl.h", "include/dlaf/eigensolver/tridiag_solver/merge.h", "include/dlaf/eigensolver/tridiag_solver/kernels.h", "include/dlaf/eigensolver/tridiag_solver/coltype.h", "include/dlaf/eigensolver/tridiag_solver/index_manipulation.h", "include/dlaf/eigensolver/tridiag_solver/rot.h"],
    [("TridiagSolver::call", "include/dlaf/eigensolver/tridiag_solver/impl.h"), ("mergeSubproblems, mergeDistSubproblems", "include/dlaf/eigensolver/tridiag_solver/merge.h"), ("distributed rotations", "include/dlaf/eigensolver/tridiag_solver/rot.h")])
alg("C33", "Row and column permutations move exactly the addressed elements",
    "Permuting the rows or columns of a range of tiles of a matrix puts into each position of the range exactly the element the permutation names and changes nothing outside of the range, locally and distributed over every grid; for every permutation, size, block size, process grid, source rank and allocation it terminates on all ranks, and the input and the permutation are only read.",
    ["include/dlaf/permutations/general.h", "include/dlaf/permutations/general/impl.h", "include/dlaf/permutations/general/perms.h"],
    [("Permutations::call", "include/dlaf/permutations/general/impl.h"), ("applyPermutations", "include/dlaf/permutations/general/perms.h")])
alg("C34", "The max norm is the largest magnitude of the stored triangle or matrix",
    "For every matrix the distributed max norm of a general or lower triangular (Hermitian) matrix is exactly the largest magnitude of its addressed elements (zero for an empty matrix) on the rank asked for; elements outside of the triangle are not used, the matrix is only read; for every size, block size, process grid, source rank, root rank and allocation it terminates on all ranks.",
    ["include/dlaf/auxiliary/norm.h", "include/dlaf/auxiliary/norm/mc.h"], [("Norm::max_L, max_G", "include/dlaf/auxiliary/norm/mc.h")])
alg("C35", "The T factor turns a panel of reflectors into their exact product",
    "For every panel of Householder reflectors with their scalars, the computed triangular factor T satisfies H1 H2 ... Hk = I - V T V^H up to rounding on every rank of the panel's column, locally and distributed; for every height, width, block size, offset of the panel, process grid and allocation it terminates on all ranks, and reflectors and scalars are only read.",
    ["include/dlaf/factorization/qr.h", "include/dlaf/factorization/qr/t_factor_impl.h", "include/dlaf/factorization/qr/internal/get_tfactor_num_workers.h"], [("QR_Tfactor::call", "include/dlaf/factorization/qr/t_factor_impl.h")])
alg("C31", "The Hermitian eigensolver returns the asked part of the spectrum on every grid",
    "For every Hermitian matrix (lower triangle given), whatever its spectrum and scale, the eigensolver returns the asked leading eigenvalues in ascending order to within rounding of the norm of the matrix and orthonormal eigenvectors with small residuals, into matrices it creates or that the caller supplies; for every size, block size, band size, process grid, source rank, allocation and valid set of tuning parameters it terminates on all ranks and does not use or write the other triangle.",
    ["include/dlaf/eigensolver/eigensolver.h", "include/dlaf/eigensolver/eigensolver/impl.h", "include/dlaf/eigensolver/internal/get_band_size.h"],
    [("Eigensolver::call", "include/dlaf/eigensolver/eigensolver/impl.h"), ("hermitian_eigensolver", "include/dlaf/eigensolver/eigensolver.h")])
alg("C32", "The generalized eigensolver solves A x = lambda B x on every grid",
    "For every Hermitian A and Hermitian positive definite B (lower triangles given, or B already factorized) the generalized eigensolver returns the asked leading eigenvalues in ascending order and eigenvectors that satisfy A X = B X Lambda with small residuals and are orthonormal with respect to B, into matrices it creates or that the caller supplies, and leaves the Cholesky factor in B; for every size, block size, process grid, source rank and allocation it terminates on all ranks.",
    ["include/dlaf/eigensolver/gen_eigensolver.h", "include/dlaf/eigensolver/gen_eigensolver/impl.h"],
    [("GenEigensolver::call", "include/dlaf/eigensolver/gen_eigensolver/impl.h")])
prop("C16", "Memory of matrices: layout, ownership and user memory are exact",
     "Every element of the local part of a matrix has an address of its own in memory allocated for it, laid out as the requested (or default) allocation layout and leading dimension say; a leading dimension that is too small is refused. Memory allocated by the library is released exactly once, when the last view or tile that refers to it is gone, whatever the history of copies, moves and sub-views; memory of the user is used in place, only at the described elements, and never released.",
     ["inputs", "histories"], "all distributions (with several tiles in a block), layouts, leading dimensions; all histories of memory views and chunks",
     "Tests construct a few layouts; aliasing of two elements, writes into padding, early or late release show only for particular shapes and histories.",
     ["include/dlaf/memory/memory_view.h", "include/dlaf/memory/memory_chunk.h", "src/memory/memory_chunk.cpp", "include/dlaf/matrix/allocation.h", "include/dlaf/matrix/allocation_types.h", "include/dlaf/matrix/col_major_layout.h", "include/dlaf/matrix/create_matrix.h", "include/dlaf/matrix/matrix.h", "include/dlaf/matrix/check_allocation.h"],
     [("MemoryView", "include/dlaf/memory/memory_view.h"), ("Matrix::set_up_non_preallocated_tiles", "include/dlaf/matrix/matrix.h"), ("ColMajorLayout", "include/dlaf/matrix/col_major_layout.h")],
     "Stateful model-based testing of views and chunks, structured generation of distributions and layouts; the allocator is a stand-in for Umpire that counts and knows every block; address sanitizer.",
     "stateful and structured property-based testing with an address-sanitized allocation model")
prop("C18", "Accesses to the tiles of a matrix happen in program order, whatever the schedule",
     "For every program that reads, writes, splits or shares tiles of a matrix, creates sub-pipelines (also constant, also retiled, also of a window, also nested), marks tiles as done, waits for tiles, drops senders and moves or destroys matrices, every access sees exactly the values it would see if the program ran sequentially, a sub-pipeline counting as a whole at the place where it was created; writes never overlap other accesses of the same elements, accesses to disjoint parts and reads do not wait for each other, waiting for a matrix returns only after all its accesses, nothing deadlocks and all memory is released. A sub-pipeline keeps the distribution and the layout of its matrix; a retiling that does not divide the blocks or is not at the origin is refused.",
     ["histories", "schedules"], "all programs over matrices, sub-pipelines, windows and subtiles; all schedules of tasks",
     "The guarantee is about all orders in which tasks can run; tests run a few fixed programs under one scheduler, and this code does not run in the baseline tests at all.",
     ["include/dlaf/matrix/matrix.h", "include/dlaf/matrix/matrix_ref.h", "include/dlaf/matrix/matrix_base.h", "include/dlaf/matrix/tile.h", "include/dlaf/matrix/internal/tile_pipeline.h", "src/matrix.cpp", "src/matrix/matrix_ref.cpp", "src/matrix/tile.cpp"],
     [("TilePipeline", "include/dlaf/matrix/internal/tile_pipeline.h"), ("Matrix::set_up_sub_pipelines, set_up_retiled_sub_pipelines", "include/dlaf/matrix/matrix.h"), ("MatrixRef", "include/dlaf/matrix/matrix_ref.h"), ("splitTile, splitTileDisjoint, shareReadWriteTile", "include/dlaf/matrix/tile.h")],
     "Stateful model-based testing: random programs on a deterministic task simulation; the values are hashes of the history of writes and are compared with a sequential execution; exclusivity is monitored. Trusts the stand-in for pika's async_rw_mutex.",
     "stateful model-based testing with seeded schedules against a sequential reference execution")
prop("C20", "Copies of matrices and redistribution move exactly the addressed elements",
     "Copying a matrix, a range of its local tiles (also within one matrix) or a window to another matrix leaves in the destination exactly the elements of the source at the corresponding places and changes nothing else; the redistributing copy does so between any two distributions over the same grid (different blocks, tiles that divide each other, source ranks), for every process grid, order of messages and allocation; it terminates on all ranks, the source is only read, and later writes to the source are not seen. The mirror of a matrix on its own device is the matrix.",
     ["inputs", "schedules", "configurations"], "all sizes, block sizes, source ranks, grids, allocations; all orders of tasks and messages",
     "Tests use a few shapes on one rank order; exchanged tiles (message tags) show only when messages overtake each other.",
     ["include/dlaf/matrix/copy.h", "include/dlaf/matrix/copy_tile.h", "include/dlaf/matrix/matrix_mirror.h", "include/dlaf/communication/kernels/p2p.h"],
     [("copy (redistribution)", "include/dlaf/matrix/copy.h"), ("copy of windows", "include/dlaf/matrix/copy.h")],
     "Structured generation on the simulated cluster with messages that overtake each other; oracle: the elements, bit for bit.",
     "structured property-based testing on a simulated cluster with seeded schedules")
prop("C19", "Tiles, parts of tiles and views denote exactly the elements they name",
     "A tile of m by n elements with leading dimension ld denotes exactly those elements of its memory; a part of a tile denotes the named elements of it, shares them, and moved-from tiles are empty. Views of the trailing part of a matrix and of a panel within it give for every local tile exactly the part inside of the view, for every distribution (also with an offset or several tiles in a block), and cover its elements once. Parts that leave the tile, too small memory or leading dimensions are refused; overlapping parts are recognized exactly.",
     ["inputs", "histories"], "all tiles, parts of parts, histories of moves; all distributions and view offsets",
     "Tests take a few parts of one tile and views of distributions without offset.",
     ["include/dlaf/matrix/tile.h", "include/dlaf/matrix/views.h", "src/matrix/tile.cpp"],
     [("Tile, subTileReference", "include/dlaf/matrix/tile.h"), ("SubMatrixView, SubPanelView", "include/dlaf/matrix/views.h"), ("test_disjoint_tiles", "src/matrix/tile.cpp")],
     "Histories of tiles against a model of addresses; views against a walk over all elements of the matrix.",
     "stateful and structured property-based testing against a model of addresses")
prop("C21", "Panels give workspaces or aliases of matrix tiles, and broadcasts fill them",
     "A row or column panel (plain or stored transposed) gives for every tile of its range a workspace of the size of the corresponding matrix tile, cut to the offset and width of the panel, or the matrix tile it was told to refer to; reads and writes reach exactly those elements, whatever the history of ranges, offsets, widths, references and resets, and a reset releases the matrix tiles. After a broadcast (also into the transposed panel) every rank that has a tile of the range holds the values of the owner; for every distribution and grid it terminates on all ranks.",
     ["histories", "schedules", "configurations"], "all histories of a panel; all distributions (offsets, several tiles in a block), grids, source ranks; all orders of tasks and messages",
     "Tests use full panels in a fresh state; ranges that start in the middle, second uses of a panel and distributions with an offset are not sampled, and this code does not run in the baseline tests.",
     ["include/dlaf/matrix/panel.h", "include/dlaf/communication/broadcast_panel.h"],
     [("Panel", "include/dlaf/matrix/panel.h"), ("broadcast", "include/dlaf/communication/broadcast_panel.h")],
     SIMNOTE + "Histories are compared with a model of the panel; broadcasts with the values of the owners.",
     "stateful model-based testing and structured generation on a simulated cluster with seeded schedules")
prop("C22", "Asynchronous messages and collectives of tiles deliver the right values",
     "In every program of scheduled sends, receives, broadcasts, reductions and all-reductions of tiles (contiguous or strided, in place or not) over the pipelines of communicators, every receiver gets the values of its sender, every reduction combines each rank's contribution exactly once, tiles that take no part keep their values, the senders of a tile may not change it before it has left, operations on one pipeline happen in program order, and everything terminates with no request, temporary or access left over. The blocking operations on parts of tiles do the same at once.",
     ["histories", "schedules", "inputs"], "all matching programs on up to six ranks, tile shapes, element types, tags; all orders of tasks and of messages",
     "Tests call each operation once; reordering of messages, waiting requests and temporaries show only under schedules that the tests do not produce; nothing of it runs in the baseline tests.",
     ["include/dlaf/communication/kernels/all_reduce.h", "include/dlaf/communication/kernels/broadcast.h", "include/dlaf/communication/kernels/p2p.h", "include/dlaf/communication/kernels/p2p_allsum.h", "include/dlaf/communication/kernels/reduce.h", "include/dlaf/sender/with_temporary_tile.h", "include/dlaf/sender/transform_mpi.h", "include/dlaf/communication/sync/broadcast.h", "src/communication/kernels"],
     [("schedule_send, schedule_recv", "include/dlaf/communication/kernels/p2p.h"), ("schedule_all_reduce", "include/dlaf/communication/kernels/all_reduce.h"), ("withTemporaryTile", "include/dlaf/sender/with_temporary_tile.h")],
     SIMNOTE + "Random matching programs; the oracle executes the same program sequentially.",
     "stateful property-based testing on a simulated cluster with seeded schedules")
prop("C36", "Operations on tiles do exactly the named operation on the named tile",
     "Every operation on tiles (products, triangular multiplication and solve, rank-k updates, norms, Cholesky factor, triangular inverse, reduction to standard form, tridiagonal eigensolver, scaling, addition, setting, copying, duplicating), called directly, blocking or as a sender, returns what its definition says up to rounding for every shape (also empty), scalar, option and element type; tiles may be parts of larger tiles: nothing outside of the result is changed and elements outside of the named triangle are not used. Breakdowns are reported by the variants that return a code and stop the others; operands that do not fit together are refused.",
     ["inputs"], "all shapes, leading dimensions, parts, scalars, options, the four element types",
     "Tests use a table of sizes and options, and these operations do not run in the baseline tests.",
     ["include/dlaf/blas/tile.h", "include/dlaf/blas/tile_extensions.h", "include/dlaf/lapack/tile.h", "include/dlaf/lapack/tile_extensions.h", "include/dlaf/matrix/copy_tile.h", "include/dlaf/util_blas.h", "include/dlaf/util_tile.h", "include/dlaf/sender/make_sender_algorithm_overloads.h", "include/dlaf/sender/transform.h"],
     [("BLAS operations", "include/dlaf/blas/tile.h"), ("LAPACK operations", "include/dlaf/lapack/tile.h"), ("size checks", "include/dlaf/util_blas.h"), ("Duplicate", "include/dlaf/matrix/copy_tile.h")],
     "Random operands (unused elements are NaN) against the definitions evaluated in double precision or residuals.")
prop("C37", "Options: command line over environment over caller over default, exactly",
     "After start-up every configuration value and tuning parameter has the value given on the command line, else in the environment, else by the caller, else its default, and no option affects another; what is printed on request names each value as it is. Values that cannot be parsed and unknown options are refused. Start-up twice, shut-down without start-up, and tuning parameters without a running task runtime are refused; after a shut-down the configuration is the default one and the library can be started again.",
     ["inputs", "histories"], "all options, sources and values; all start-up and shut-down histories",
     "The test initializes once and checks a few fields; exchanged names among forty similar options go unnoticed.",
     ["include/dlaf/init.h", "src/init.cpp", "include/dlaf/tune.h", "src/tune.cpp", "include/dlaf/matrix/allocation_io.h"],
     [("updateConfiguration, getOptionsDescription", "src/init.cpp"), ("TuneParameters", "include/dlaf/tune.h")],
     "Random subsets of options from each source against the precedence computed per option; the task runtime and its option parser are stand-ins (the parser is Boost's, as in pika).")
prop("C38", "C and ScaLAPACK interface: contexts, layouts, start and return",
     "A context handed out names its own grid (that communicator, rows, columns, order) until it is freed, whatever other contexts are created or freed; a context made from BLACS is row- or column-major as BLACS numbers its ranks. Each C or ScaLAPACK call does exactly what the C++ routine does on the caller's column-major local part: given descriptor, source rank, leading dimension, triangle and 1-based index range; only the documented output changes, nothing outside the local part; the results are complete when the call returns; info is 0; the runtime works during calls only. Contexts that do not exist, sub-matrices, leading dimensions that are too small and unknown triangles are refused. Library start and end are idempotent.",
     ["inputs", "histories", "schedules"], "all histories of contexts and calls, descriptors, schedules",
     "The C tests use one grid per process, one call and one layout; contexts that come and go, calls on several contexts and padded or shifted layouts never meet.",
     ["src/c_api/grid.cpp", "src/c_api/utils.cpp", "src/c_api/init.cpp", "src/c_api/eigensolver/eigensolver.h", "src/c_api/eigensolver/gen_eigensolver.h", "src/c_api/factorization/cholesky.h", "src/c_api/inverse/cholesky.h", "include/dlaf_c/grid.h"],
     [("dlaf_create_grid", "src/c_api/grid.cpp"), ("PikaRunningScope, make_layout", "src/c_api/utils.cpp")],
     "Random histories of contexts and calls of the C library, one copy of it loaded per simulated process, judged by residuals on gathered matrices and guards around all memory; BLACS is a stand-in, a suspended runtime holds its tasks.")
prop("C39", "Filled, predicated and printed matrices are what was asked for",
     "Setting a matrix gives every element exactly the value asked for: function of the global index with op, identity, zero (on the given tiles or panel only). Random fillings keep their promises: magnitude at most one, Hermitian exactly, zero outside of the band, positive definite, no small diagonal; they depend on the global position only, not on ranks, grid or allocation, and tiles differ. Accesses before and after keep their order. Predicates on sizes, tiles, offsets and grids are exact. What the numpy and csv printers write evaluates to the matrix, every element once over all ranks. A mirror on the same device is the matrix itself.",
     ["inputs", "schedules"], "all sizes, tiles, grids, sub-matrices, allocations and schedules",
     "These are what tests build on and are hardly tested themselves: a filling that is wrong for some grid or a partial tile hides errors in the algorithms.",
     ["include/dlaf/util_matrix.h", "include/dlaf/matrix/print_csv.h", "include/dlaf/matrix/print_numpy.h", "include/dlaf/matrix/matrix_mirror.h"],
     [("util::set, set_random, set_random_hermitian_with_offset, set0, multipliable", "include/dlaf/util_matrix.h"), ("print", "include/dlaf/matrix/print_numpy.h")],
     "Element-wise definitions on gathered matrices, the same filling repeated on another grid, the printed text parsed and evaluated.")
prop("C40", "A saved matrix is read back bit for bit with any distribution",
     "A matrix written to a file is there exactly as it was at the call (after earlier accesses, before later ones), each element once at its global position, whatever its distribution; of matrices that are local to their ranks that of the first rank is saved. Reading it on any grid, tile size and source rank, or locally, gives a matrix with that distribution and the same bits, which shares nothing with the file or with other reads. Several matrices of different types live in one file. Saving a distributed matrix in a file without parallel access, another element type, unknown names and names in use are refused.",
     ["inputs", "histories", "schedules"], "all matrices, pairs of distributions, sets of data in a file, schedules",
     "HDF5 is not part of the tested build, and its test uses one matrix and the same distribution twice.",
     ["include/dlaf/matrix/hdf5.h", "src/matrix/hdf5.cpp"],
     [("FileHDF5, for_each_local_map_with_dataset", "include/dlaf/matrix/hdf5.h")],
     "Random sets of matrices written and read with unrelated distributions against files in memory; HDF5 is a stand-in that enforces extents, selections, access modes and collective creation.")
prop("C41", "Library calls compose: any program without waiting equals step by step",
     "Calls on several matrices and grids can be issued one after the other without waiting: every call sees the results of the earlier calls on its matrices and none of the later ones, whatever is still in flight; user work on tiles takes its place in the same order; a matrix may be read, overwritten, copied, redistributed, destroyed and made anew while work on it is pending, and two grids may share their processes. The program ends on every schedule and every matrix, every value read on the way and every norm are the same as when each call is waited for.",
     ["histories", "schedules"], "all programs of calls over a set of matrices and grids, all schedules of tasks and messages",
     "Tests call one algorithm on one matrix and wait; the point of the asynchronous interface is that calls overlap.",
     ["include/dlaf/matrix/matrix.h", "include/dlaf/factorization/cholesky.h", "include/dlaf/communication/communicator_grid.h", "include/dlaf/communication/communicator_pipeline.h", "include/dlaf/matrix/copy.h"],
     [("Matrix::read/readwrite, ~Matrix", "include/dlaf/matrix/matrix.h"), ("CommunicatorGrid pipelines", "src/communication/communicator_grid.cpp")],
     "Random programs of up to fourteen calls (factorizations, solves, products, inverses, reduction to standard form, norms, copies, user tasks, re-created matrices) executed without waiting and with waiting after each call; the results are compared.")
prop("C42", "Work on senders runs once, on the right values, and releases what it used",
     "Work attached to senders, in any spelling (lazy or detached, piped, lifted, as generated overload, blocking), is executed exactly once after it is started, never by the caller that issues it, with the priority and stack its policy names, when all its inputs are ready; it is called with exactly the values sent: accesses opened (constant for reads), references referring to the object itself, temporaries as temporaries. When its successor runs, or a blocking call returns, its accesses are released and its temporaries destroyed. An error of the work or of an input reaches whoever waits, work with a failed input and dropped work is never executed, and both release what they hold. A message operation gives its communicator back as soon as the message is posted, and keeps everything else until it is complete.",
     ["histories", "schedules", "faults"], "all programs of operations over values, references, accesses and results, all spellings, errors and schedules",
     "None of this runs in the baseline tests (no task runtime there); upstream tests one spelling at a time, without contention.",
     ["include/dlaf/sender/transform.h", "include/dlaf/sender/transform_mpi.h", "include/dlaf/sender/policy.h", "include/dlaf/sender/make_sender_algorithm_overloads.h", "include/dlaf/sender/when_all_lift.h", "include/dlaf/common/unwrap.h", "include/dlaf/schedulers.h"],
     [("transform*", "include/dlaf/sender/transform.h"), ("transformMPI", "include/dlaf/sender/transform_mpi.h"), ("Unwrapping", "include/dlaf/common/unwrap.h"), ("Policy", "include/dlaf/sender/policy.h")],
     "Random programs of up to sixteen operations, with failures, drops and shared results, judged by the program executed in order; plus order and stack by policy, the argument adapter alone, and crossing messages over one communicator.")
prop("C43", "Sizes, workers and waits derived from tuning parameters are admissible",
     "For every block size and minimum band the band used by the eigensolver is the smallest divisor of the block that is not below the minimum, or the block itself if there is none; the one-dimensional distribution uses the largest multiple of the block within the base, but at least one block. For every number of threads the workers of a panel factorization, a T factor and a rank 1 update are as many as asked for, but at least one and no more than there are (all but one for the first two). Waits last the microseconds asked for, each by its own parameter. A block below one, a minimum band below two and a base below one are refused.",
     ["inputs", "configurations"], "all block sizes, minimum bands, bases, numbers of threads and values of the parameters",
     "The functions are not run by the baseline tests; a band that does not divide the block or a worker too many shows for particular combinations only.",
     ["include/dlaf/eigensolver/internal/get_band_size.h", "include/dlaf/eigensolver/internal/get_1d_block_size.h", "include/dlaf/eigensolver/internal/get_red2band_panel_nworkers.h", "include/dlaf/eigensolver/internal/get_tridiag_rank1_nworkers.h", "include/dlaf/factorization/qr/internal/get_tfactor_num_workers.h", "include/dlaf/eigensolver/internal/get_red2band_barrier_busy_wait.h", "include/dlaf/eigensolver/internal/get_tridiag_rank1_barrier_busy_wait.h", "include/dlaf/factorization/qr/internal/get_tfactor_barrier_busy_wait.h", "include/dlaf/tune.h"],
     [("getBandSize", "include/dlaf/eigensolver/internal/get_band_size.h"), ("get1DBlockSize", "include/dlaf/eigensolver/internal/get_1d_block_size.h")],
     "Generated parameters against the definitions by enumeration; refusals in a child process. The number of threads comes from the stand-in for pika.",
     "property-based testing against an enumerating reference model")
prop("C44", "The miniapps run, time, check and report what the command line asks for",
     "For every accepted command line a miniapp calls the algorithm it is named after once per run and warm-up run, with the grid, sizes, blocks, triangle, range and element type asked for, and reads the time only when the result is complete on the process that reports. Every run, and no warm-up run, is reported once, in order, with its time, the performance that time and the operation count give, the element type, options, sizes, grid and threads, and with --csv in one line of titles and values; results are checked exactly on the runs asked for, a wrong element is called an ERROR and a right result never is. All processes end with success, MPI is started and ended once, no memory is left. A value that is not allowed ends the program before any run. Kernels execute every operation once, on separate tiles.",
     ["inputs", "configurations", "schedules", "faults"], "all command lines of the miniapps, grids, schedules and positions of a wrong element",
     "No miniapp is built or run by the tests; a verdict that cannot fail, a time read early or a swapped option is invisible there.",
     ["miniapp/miniapp_cholesky.cpp", "miniapp/miniapp_eigensolver.cpp", "miniapp/miniapp_triangular_solver.cpp", "miniapp/miniapp_communication.cpp", "miniapp/include/dlaf/miniapp/options.h", "miniapp/include/dlaf/miniapp/kernel_runner.h", "miniapp/include/dlaf/miniapp/work_tiles.h", "miniapp/include/dlaf/miniapp/scale_eigenvectors.h"],
     [("MiniappOptions, parse*", "miniapp/include/dlaf/miniapp/options.h"), ("check_cholesky", "miniapp/miniapp_cholesky.cpp"), ("checkEigensolver", "miniapp/miniapp_eigensolver.cpp"), ("KernelRunner", "miniapp/include/dlaf/miniapp/kernel_runner.h")],
     "The main functions of the miniapps run unchanged on the simulated cluster with generated command lines; their output, calls and order are compared with a model of the command line. One element of the result is damaged to test the verdicts; one option is invalid to test refusals.",
     "property-based testing of whole programs against a model of the command line; injected faults in results")
prop("C45", "Benchmark scripts ask for what was set up, and read back what miniapps print",
     "For every system, number of nodes and ranks per node, every command of the benchmark scripts runs the application of its algorithm with the sizes, blocks, band, element type, number of runs, extra flags and environment given, on a process grid whose product is the number of ranks and which is as close to a square as possible, with the threads of its library, and appends to the file of its algorithm, library and suffix. A strong or weak scaling job holds every combination of the parameters of every run added exactly once, in order, after the preamble of its system, with the sizes of weak scaling at the multiple of the approximation next to size times the square root of the nodes; it is written for every number of nodes in its own directory, submitted only when asked, and cleared after that. Ranks per node, types, bands or libraries that are not allowed are refused. Every line of the form the miniapps print is read once, with every field as printed, and no other line is.",
     ["inputs", "histories", "configurations"], "all systems, parameters, sequences of additions and submissions, outputs",
     "Nothing of the scripts is run by the tests; a wrong combination or field only shows in the figures of a benchmark.",
     ["scripts/miniapps.py", "scripts/systems.py", "scripts/postprocess.py"],
     [("StrongScaling, WeakScaling, JobText", "scripts/miniapps.py"), ("_sq_factor, chol, trsm, evp, ...", "scripts/miniapps.py"), ("_parse_line_based, parse_jobs", "scripts/postprocess.py")],
     "Generated systems, parameters and histories of additions, prints and submissions against models of the commands and jobs; generated outputs written as the miniapps write them, read back. The commands are run by the miniapps themselves in C44.",
     "property-based testing with Hypothesis: stateful models and round trips")
prop("C46", "Debug dumps: one file per call with what was given and what was returned",
     "With HDF5 and a debug dump setting on, every call of the distributed algorithm it names (lower variants of the factorization and of the reduction to standard form) creates one file of its own, named with element type and a number no earlier call used, that holds the matrices given to the algorithm and its results bit for bit, each element written once, for every grid, distribution, allocation, size (empty and one tile included), history of calls and schedule; in an eigensolver every stage dumps what the stage before returned. The calls end, and their results are those without dumps. Without the setting no file is created.",
     ["inputs", "histories", "schedules", "configurations"], "all algorithms, matrices, grids, settings, sequences of calls",
     "HDF5 is not part of the build of the tests; a dump of a stale or partial matrix, a second call or a wait that never ends shows only when somebody debugs.",
     ["include/dlaf/eigensolver", "include/dlaf/factorization", "include/dlaf/inverse", "include/dlaf/matrix/hdf5.h"],
     [("debug_dump_* blocks of call_L, call_U, call", "include/dlaf/eigensolver/gen_to_std/impl.h"), ("TridiagSolver::call", "include/dlaf/eigensolver/tridiag_solver/impl.h"), ("FileHDF5::write", "include/dlaf/matrix/hdf5.h")],
     "Histories of calls with any subset of the settings on simulated clusters with an HDF5 stand-in; datasets compared with inputs and outputs and along the stages, results with those of a run without dumps.",
     "property-based testing on a simulated cluster with schedules; differential run without dumps")
na("C90", "GPU back end: same results and same ordering guarantees as on the CPU",
   "Every algorithm instantiated for the GPU back end computes what the CPU back end computes, and work on streams keeps the access order of tiles.",
   ["inputs", "schedules"], "all inputs, streams and schedules",
   "No GPU and no CUDA or HIP compiler is available to the tests either.",
   ["include/dlaf/sender/transform.h", "src/permutations/general/gpu.cpp"], [("Backend::GPU code paths", "include/dlaf/sender/transform.h")],
   "There is no GPU, no CUDA or HIP toolkit and no emulator in the sandbox: the code cannot be compiled, so no generated input can be executed against it.")
