#!/usr/bin/env python3
# Source of properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)
import json
P = []
def p(id, title, statement, over, q, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": q},
              "why_tests_cant": why, "anchors": a})
I = "include/dlaf/"
UD = I + "matrix/util_distribution.h"; DI = I + "matrix/distribution.h"; DC = "src/matrix/distribution.cpp"

# ---------------------------------------------------------------- index arithmetic / distribution
p("P01", "Index maps realise exactly the 2D block-cyclic distribution",
  "For every size, tile size, block size, process grid, source rank and offset, the conversions between global elements, global tiles, local tiles, local elements, in-tile elements and owning ranks agree with the block-cyclic definition: block b lives on rank (b + source) mod grid size, blocks are stored in order on their owner, and only the block that contains the origin is shortened by the offset. Consequently global-to-local and local-to-global maps are mutual inverses on the owner, a non-owner is told so (-1), and the 'next local tile' of a global position is the first locally stored tile not before it. Questions about a rank, index or layout outside the distribution are rejected with a report (checks on) instead of being answered.",
  ["inputs", "configurations"], "every extent, tile size, tiles per block, grid size, rank, source rank, offset and index inside the preconditions",
  "The index tests sample a few dozen hand-made tuples; the functions are pure integer maps over an unbounded 6-dimensional domain.",
  [UD, DI, DC, I + "matrix/distribution_extensions.h"],
  [("1D index conversion functions", UD), ("Distribution member conversions", DI), ("rank-explicit variants", I + "matrix/distribution_extensions.h")])
p("P02", "Tile sizes and local sizes partition the global matrix exactly",
  "The sizes reported for tiles (global, local or by rank) are positive, never exceed the tile size, are full except for the first tile (shortened by the offset) and the last (remainder), and add up to the extent of the matrix; local tile counts and local element counts are exactly the sums over the tiles a rank owns, so the local sizes over all ranks add up to the global size. Ranges outside the distribution are rejected.",
  ["inputs", "configurations"], "every distribution and every rank of its grid",
  "Tests check particular distributions; the sum over all ranks and tiles for arbitrary sizes and offsets is never enumerated.",
  [DI, DC], [("tile_size_of / local size computation", DC), ("tile size accessors", DI)])
p("P03", "Sub-distributions, views and retiling address exactly the parent's elements",
  "A distribution derived from another one (sub-matrix of given origin and size, or re-tiling of its blocks) maps each of its elements to the same rank and the same stored element as the parent does for the corresponding parent element; tile views built on top have the size and the in-tile offset implied by the overlap of the requested window with each tile. Windows outside the parent and incompatible tilings are rejected.",
  ["inputs", "configurations"], "every parent distribution, origin, size and compatible tiling",
  "Sub-distribution tests use a handful of windows on small grids; off-by-one errors in the first/last block appear only for particular offset combinations.",
  [DC, DI, I + "matrix/views.h", I + "matrix/matrix_base.h"],
  [("sub-distribution constructor", DC), ("view window arithmetic", I + "matrix/views.h"), ("retiled matrix construction", I + "matrix/matrix_base.h")])
p("P04", "Row and column quantities are never interchanged",
  "Every row extent, index, offset, rank or leading dimension is derived only from row quantities and every column one only from column quantities, except where the operation is by definition a transposition or is restricted to square tiles.",
  ["inputs", "configurations"], "every non-square matrix, tile and process grid",
  "Many tests use square tiles and grids, on which an interchange is invisible.",
  [DI, DC, UD, I + "matrix/tile.h", I + "matrix/views.h", I + "communication/communicator_grid.h"],
  [("coordinate-typed accessors", I + "common/index2d.h"), ("Distribution per-coordinate members", DI)])
p("P05", "2D index and size values behave as coordinate pairs of their own kind",
  "Sizes, positions and linear indices convert and combine component-wise: linear index and 2D position are mutual inverses in both orderings, membership means both coordinates are non-negative and strictly inside the size, transposition swaps exactly the two coordinates, and comparison, addition and subtraction act on each coordinate. Indices and sizes of different kinds (global or local, tile or element, position or size) cannot be mixed: such code does not compile. Conversions of indices outside the size are rejected or answered with the documented invalid index; the text form shows the pair in its order.",
  ["inputs", "programs"], "every pair of coordinates, ordering and element type; every program mixing index kinds",
  "A test can neither enumerate coordinate values nor show that wrong code is rejected.",
  [I + "common/index2d.h", I + "matrix/index.h", I + "communication/index.h", I + "types.h"],
  [("Index2D, Size2D, linear index helpers", I + "common/index2d.h"), ("tag types", I + "matrix/index.h")])
p("P06", "2D ranges visit every index exactly once, in column-major order",
  "Iterating over the range between two 2D indices, or over a 2D size, yields every index with begin <= index < end exactly once, rows varying fastest, and yields nothing when either extent is empty.",
  ["inputs"], "every begin/end pair, including empty extents in one or both coordinates",
  "Tests iterate a few ranges; empty and negative extents and large ranges are not enumerated.",
  [I + "common/range2d.h"], [("range iterator and its factories", I + "common/range2d.h")])
p("P07", "Integer conversions never silently change a value",
  "Every conversion helper between integer types either returns a number equal to its argument or, with checks on, reports a failed precondition; a count, size or rank that is handed to a 32-bit interface (MPI, BLAS, threads) passes through such a checked conversion.",
  ["inputs", "programs"], "every source value and every pair of integral types; every call into a narrower interface",
  "Out-of-range counts need matrices of more than 2^31 elements; no test allocates them.",
  [I + "types.h", "src/blas/scal.cpp", I + "communication/type_handler.h", I + "communication/message.h"],
  [("to_signed/to_unsigned/integral_cast and wrappers", I + "types.h"), ("count conversions for MPI", I + "communication/message.h")])
p("P08", "Integer and scalar helper functions compute their mathematical definition",
  "Division rounding up, checked sums and products, percentage-to-index conversion, splitting a length at two interleaved periodic sequences, sign comparison, complex conjugation, type-dependent operation counts, and lower-casing of strings return the value of their mathematical definition for every argument in their domain.",
  ["inputs"], "every argument inside the stated domain",
  "The unit tests sample a few values each.",
  [I + "util_math.h", I + "types.h", I + "util_string.h"], [("math helpers", I + "util_math.h"), ("type traits and conj", I + "types.h")])
p("P09", "Rotating resource pools hand out every resource in cyclic order",
  "A rotating pool of n resources always designates one of its n resources; asking for the next one advances by exactly one position cyclically, so any n consecutive requests return n different resources and the current resource is the last one handed out.",
  ["histories", "inputs"], "every pool size and every sequence of requests",
  "Not covered by a test of its own; algorithms use fixed pool sizes of two or three.",
  [I + "common/round_robin.h", I + "communication/communicator_grid.h"],
  [("RoundRobin", I + "common/round_robin.h"), ("communicator pipelines round robin", I + "communication/communicator_grid.h")])
p("P10", "Memory layouts place all elements inside the allocation, without overlap",
  "For each of the supported storage layouts the position of every local tile and its leading dimension are such that elements of different (tile, element) coordinates never share a memory location, no element lies outside the allocated extent, and the minimum size that is computed for checks is exactly the position of the last element plus one. A layout whose leading dimension or tile strides would violate this is rejected.",
  ["inputs", "configurations"], "every distribution, tile position, leading dimension and stride",
  "Tests use a few layouts; overlaps show only for particular padding and remainders.",
  [I + "matrix/col_major_layout.h", I + "matrix/allocation.h", I + "matrix/allocation_types.h", I + "matrix/check_allocation.h", I + "matrix/tile.h"],
  [("column-major tile offsets and minimum size", I + "matrix/col_major_layout.h"), ("leading dimension selection", I + "matrix/allocation.h"), ("tile element addressing", I + "matrix/tile.h")])
p("P11", "Strided data descriptors and copies cover exactly the described elements",
  "A description of strided memory (pointer, number of blocks, block size, stride) denotes the elements pointer + i*stride + j and nothing else, through every normalisation, conversion or temporary contiguous buffer derived from it; copying between two descriptions transfers element k of the source to element k of the destination for every combination of contiguous and strided sides, and writes nothing else. Descriptions whose shapes do not match are rejected before anything is copied.",
  ["inputs"], "every number of blocks, block size, stride and contiguity combination",
  "Tests cover a few shapes; gaps between blocks and mixed shapes with different block sizes are sampled only.",
  [I + "common/data_descriptor.h", I + "common/data.h"], [("DataDescriptor and Buffer", I + "common/data_descriptor.h"), ("copy between descriptions", I + "common/data.h")])

# ---------------------------------------------------------------- ownership / matrices
p("P12", "Owned resources are released exactly once, borrowed ones never",
  "Memory, MPI datatypes and MPI communicators that the library created are released exactly once after their last use, on every path including moves, self-moves, overwriting assignments and exceptions; resources supplied by the user are never released by the library. Owners of such a resource cannot be copied.",
  ["histories", "programs"], "every sequence of construction, move, assignment and destruction",
  "Leaks and double releases of opaque handles are not visible to functional tests.",
  [I + "memory/memory_chunk.h", I + "memory/memory_view.h", I + "communication/type_handler.h", "src/communication/communicator_impl.cpp", "src/communication/communicator.cpp", I + "common/data_descriptor.h"],
  [("memory chunk ownership", I + "memory/memory_chunk.h"), ("MPI datatype ownership", I + "communication/type_handler.h"), ("managed communicator", "src/communication/communicator_impl.cpp")])
p("P13", "Read access can never modify a matrix",
  "Everything obtained by asking a matrix, tile, panel or sub-pipeline for read access exposes its elements only as constant data, and a read-only object cannot be converted or moved into a modifiable one: code attempting either does not compile.",
  ["programs"], "every program using the public matrix and tile interface",
  "A test only contains code that compiles; rejection of programs is not observable by running one.",
  [I + "matrix/matrix.h", I + "matrix/tile.h", I + "matrix/matrix_ref.h", I + "matrix/panel.h"],
  [("read / readwrite accessors", I + "matrix/matrix.h"), ("tile constness", I + "matrix/tile.h")])
p("P14", "Tile accesses keep their dependencies alive and release them exactly once",
  "A tile or sub-tile that depends on a pending or shared tile holds that dependency until it is destroyed, and releases it exactly once, also when it is moved; disjoint writable sub-tiles release the parent tile only when all of them are gone.",
  ["schedules", "histories"], "every interleaving of creation, move and destruction of tiles and sub-tiles",
  "Tests exercise a few orders; a lost or doubled release shows only as a rare hang or race.",
  [I + "matrix/tile.h", I + "matrix/internal/tile_pipeline.h"], [("tile destructor, move and sub-tile creation", I + "matrix/tile.h"), ("tile pipeline", I + "matrix/internal/tile_pipeline.h")])
p("P15", "A sub-pipeline is ordered between the accesses of its parent",
  "All accesses made through a sub-pipeline happen after the accesses requested from the parent before it was created and before those requested after it was released; releasing happens on every path (explicit completion, destruction, move, overwriting).",
  ["schedules", "histories"], "every interleaving of accesses to parent and sub-pipelines",
  "Depends on asynchronous schedules and on object lifetimes no test enumerates.",
  [I + "common/pipeline.h", I + "matrix/matrix.h", I + "matrix/internal/tile_pipeline.h"], [("pipeline release", I + "common/pipeline.h"), ("sub-pipelined matrix", I + "matrix/matrix.h")])
p("P16", "Waiting for a matrix waits for every pending access to every local tile",
  "After a wait on a matrix returns, no task that accesses any of its local tiles is pending; waiting, releasing and copying enumerate all local tiles.",
  ["schedules"], "every schedule and every local tile",
  "A missing tile shows only if its task happens to be late.",
  [I + "matrix/matrix.h", I + "matrix/matrix_base.h"], [("wait over local tiles", I + "matrix/matrix.h")])
p("P17", "Mirrored matrices are synchronised with their source on every exit",
  "A mirror of a matrix on another device starts with the content of the source and, unless it is read-only, its final content is written back to the source before the source is used again, on every path including early destruction.",
  ["histories", "schedules"], "every use and destruction order",
  "Only meaningful on two devices; the device-less build aliases both matrices.",
  [I + "matrix/matrix_mirror.h"], [("mirror construction and destruction", I + "matrix/matrix_mirror.h")])
p("P18", "Panel workspaces never leak content between iterations",
  "A panel yields for every tile in its active range either its own workspace or the external tile that was set for it, with the extents of the corresponding matrix row or column; after a reset no external tile and no range restriction of the previous iteration remains in effect.",
  ["histories", "inputs"], "every sequence of range changes, tile links and resets",
  "Tests check a few sequences; stale state shows only in particular orders of calls.",
  [I + "matrix/panel.h"], [("panel range, external tiles and reset", I + "matrix/panel.h")])
p("P19", "Redistribution copies every tile exactly once and pairs every message",
  "Copying between two matrices of different distribution transfers every source element to the equal global position; each message has exactly one sender and one receiver, which agree on peer and tag, and no two different tiles exchanged between the same pair of ranks in the same copy share a tag.",
  ["schedules", "configurations"], "every pair of distributions and every message order",
  "Tag collisions deliver wrong data only if two transfers are in flight at once; tests use few tiles.",
  [I + "matrix/copy.h"], [("redistribution copy", I + "matrix/copy.h")])

# ---------------------------------------------------------------- communication
p("P20", "Every element type travels as the MPI type of its own representation",
  "Each arithmetic and complex element type is associated with the MPI datatype that has the same size and representation, constant and non-constant elements share it, and requesting a type without association does not compile or link.",
  ["inputs", "programs"], "every supported element type",
  "Tests send a few types only, on homogeneous machines where several wrong choices still deliver the right bytes.",
  ["src/communication/datatypes.cpp", I + "communication/datatypes.h"], [("datatype table", "src/communication/datatypes.cpp")])
p("P21", "A message describes exactly the elements of its data",
  "The pointer, count and datatype handed to MPI for a piece of data denote exactly its elements: contiguous data as its element count of the element type, strided data as one vector type with its number of blocks, block size and stride.",
  ["inputs"], "every shape of data and element type",
  "Tests check a few shapes.",
  [I + "communication/message.h", I + "communication/type_handler.h"], [("Message", I + "communication/message.h"), ("vector datatype", I + "communication/type_handler.h")])
p("P22", "No MPI error code is ignored",
  "The result of every MPI call is checked, and the check stops the program with a report whenever the result is not success; no MPI call is made whose failure would go unnoticed. The report names the text of the error and the place of the call, and the program stops with a failure status.",
  ["fault_sequences"], "every MPI call site and every error code",
  "MPI does not fail in tests.",
  [I + "communication/error.h", "src/communication", I + "communication", "src/c_api"], [("error check", I + "communication/error.h"), ("MPI call sites", "src/communication")])
p("P23", "Communication operations pass peer, root, operation and buffers unchanged",
  "Each communication operation of the library performs exactly the MPI operation its name promises, with the peer or root, reduction operation and communicator it was given; the input is read-only, the output receives the complete result even when temporary contiguous storage is needed, single-process shortcuts give the same result, and in a collective every rank takes part in the same call.",
  ["inputs", "configurations"], "every root, communicator size, operation and data shape (contiguous or strided, in-place or not)",
  "Tests run on two to six ranks with few roots and shapes; swapped roles cancel out for symmetrical arguments.",
  [I + "communication/sync", I + "communication/kernels", "src/communication/kernels"], [("blocking operations", I + "communication/sync"), ("asynchronous kernels", I + "communication/kernels")])
p("P24", "Asynchronous communication stages the right buffers in the right direction",
  "An asynchronous transfer copies the tile to the staging buffer if and only if the operation reads it, and back if and only if the operation writes it; contiguity is enforced exactly for operations that need it, and the tile stays accessible to the operation until it has completed.",
  ["schedules", "configurations"], "every operation, device and tile layout",
  "On CPU most tiles need no staging, so wrong directions are invisible.",
  [I + "sender/with_temporary_tile.h", I + "communication/kernels/internal", "src/communication/kernels"], [("copy policies of the kernels", I + "communication/kernels/internal"), ("temporary tile", I + "sender/with_temporary_tile.h")])
p("P25", "Ranks and coordinates of the process grid are consistent",
  "The position of a rank in the process grid follows the requested ordering, row and column communicators contain exactly the processes of that row or column with the other coordinate as rank, and the full, row and column communicators are duplicates that share no traffic with the user's communicator.",
  ["configurations"], "every grid shape, ordering and communicator size",
  "Tests use fixed small grids.",
  ["src/communication/communicator_grid.cpp", I + "communication/communicator_grid.h", I + "common/index2d.h"],
  [("grid construction", "src/communication/communicator_grid.cpp"), ("rank/coordinate conversion", I + "communication/communicator_grid.h")])
p("P26", "Communication uses the communicator that ordered access handed out",
  "Outside of the communication layer, MPI communication is only started by a callable with the communicator that this callable was handed through ordered (pipelined) access, never with one that it made or found itself and never with one of MPI's own.",
  ["programs"], "every call of MPI in the library",
  "A bypass behaves the same until two operations overlap.",
  ["include/dlaf", "src"], [("communication layer", I + "communication"), ("asynchronous MPI calls", I + "sender/transform_mpi.h")])
p("P27", "Collective communicators are used exclusively and released once posted",
  "Every collective operation takes exclusive access to its communicator, in program order, and gives it back after the operation is posted; point-to-point operations may share a communicator but never with a running collective.",
  ["schedules"], "every interleaving of tasks",
  "A wrong order deadlocks or mixes messages only under unlucky schedules.",
  [I + "communication/communicator_pipeline.h", I + "communication/kernels", I + "communication/broadcast_panel.h"], [("communicator pipeline", I + "communication/communicator_pipeline.h")])
p("P28", "All ranks post matching communication and every task completes",
  "All processes of a distributed algorithm post the same sequence of collective operations on each communicator, with the same operation, root and number of elements, and every point-to-point message has exactly one sender and one receiver that agree on peer, tag and length - also when the processes execute their ready tasks in different orders; no task waits for another one that waits for it.",
  ["configurations", "schedules"], "every rank, grid, source rank and problem size, every order of ready tasks",
  "An unmatched branch needs a particular grid and size to hang, a mismatched order a particular schedule.",
  [I + "communication/broadcast_panel.h", I + "solver/triangular/impl.h", I + "factorization/cholesky/impl.h", I + "multiplication"], [("panel broadcast", I + "communication/broadcast_panel.h"), ("distributed algorithms", I + "solver/triangular/impl.h")])
# ---------------------------------------------------------------- tasks
p("P29", "Asynchronous tasks never refer to expired local variables",
  "A callable that is handed to the task runtime and may run after its creator returned owns (or shares ownership of) everything it uses; it refers to local variables of its creator only where the creator waits for it.",
  ["schedules", "programs"], "every task created by the library and every schedule",
  "A dangling reference often reads still-valid stack memory.",
  ["include/dlaf", "src"], [("task creation", I + "sender/transform.h")])
p("P30", "No task is created and then dropped",
  "Every piece of deferred work that the library creates is started: it is returned, stored, awaited or explicitly started, never discarded.",
  ["programs", "schedules"], "every task creation site",
  "A dropped task silently skips work; the affected path may not be in a test.",
  ["include/dlaf", "src"], [("sender adaptors", I + "sender"), ("start points", I + "sender/make_sender_algorithm_overloads.h")])
p("P31", "BLAS/LAPACK calls from tasks run single-threaded and restore the setting",
  "Every CPU kernel that runs inside a task executes with exactly one BLAS thread on its calling thread, and when it ends, also by an exception, the previous number of threads of that thread is restored, whichever BLAS is used (OpenMP or MKL). A scope is bound to the thread that opened it: it cannot be copied, closing it on another thread is rejected, and no task suspends itself while one is open.",
  ["schedules", "histories"], "every nesting of scopes and every exit path",
  "Oversubscription only slows down; a wrong restore changes user settings that tests do not read.",
  [I + "common/single_threaded_blas.h", "src/common/single_threaded_blas.cpp", I + "sender/transform.h", I + "blas/tile.h", I + "lapack/tile.h", I + "eigensolver"], [("scope guard", "src/common/single_threaded_blas.cpp"), ("task wrapper", I + "sender/transform.h")])
p("P32", "Assertions have no effect on results",
  "Evaluating or not evaluating any assertion changes nothing but failure reporting: assertion conditions and messages have no side effects, a failing check reports and terminates, and a disabled one costs and does nothing.",
  ["configurations"], "every combination of assertion levels",
  "The test build enables all assertions.",
  [I + "common/assert.h", "include/dlaf", "src"], [("assertion macros", I + "common/assert.h")])
p("P33", "Moved-from objects are not used",
  "After a local object or argument has been given away by a move its old value is never read before a new one is assigned, on any path.",
  ["programs"], "every function of the library",
  "A moved-from value often still looks right.",
  ["include/dlaf", "src"], [("value flow through moves", I + "sender")])

# ---------------------------------------------------------------- algorithms
p("P34", "Public entry points reject arguments outside their domain",
  "Every public algorithm checks, before doing any work, that matrix shapes, block sizes, process grids, index ranges and enumerated options are compatible as documented, and stops with a report otherwise; local and distributed variants demand the same relations between their arguments. Arguments that are accepted reach the implementation named by the options unchanged.",
  ["inputs"], "every combination of arguments",
  "Tests call the entry points with valid arguments.",
  [I + "solver/triangular.h", I + "multiplication", I + "eigensolver", I + "factorization", I + "inverse"], [("entry point checks", I + "solver/triangular.h")])
p("P35", "Solvers and multiplications compute their operation on every process grid",
  "The triangular solver and the triangular, hermitian and general multiplications compute, for every supported side, triangle, transposition and diagonal option and for real and complex elements, the operation of their name (op(A) X = alpha B, alpha op(A) B, alpha A B + beta C): the local call and the distributed call give the same matrix whatever the process grid and the rank that owns the first tile, only the output matrix changes, parts of an operand that the options exclude are not used, and a zero scaling factor gives the exact result. The result does not depend on the order in which the runtime executes tasks that are ready.",
  ["configurations", "inputs", "schedules"], "every option combination, size, tile size, process grid, source rank and matrix content",
  "Each option combination runs in few tests, on few grids, with tolerances; the tests of these algorithms need the task runtime and several processes.",
  [I + "solver/triangular.h", I + "solver/triangular/impl.h", I + "multiplication/triangular.h", I + "multiplication/triangular/impl.h", I + "multiplication/hermitian/impl.h", I + "multiplication/general/impl.h", I + "multiplication/general.h"], [("triangular solver", I + "solver/triangular/impl.h"), ("multiplications", I + "multiplication/triangular/impl.h")])
p("P36", "Option values are dispatched exhaustively to their own implementation",
  "Each combination of side, triangle, transposition and diagonal option reaches the implementation for exactly that combination; a combination that is not supported is reported, not ignored, and text, matrix-type and enumeration conversions map each value to its own counterpart.",
  ["inputs"], "every option combination",
  "Untested combinations fall through silently.",
  [I + "solver/triangular.h", I + "multiplication/triangular.h", I + "util_lapack.h", I + "types.h", I + "eigensolver/tridiag_solver/coltype.h"], [("option dispatch", I + "solver/triangular.h"), ("enumeration conversions", I + "util_lapack.h")])
p("P37", "Tile kernels pass the tile's own geometry to BLAS and LAPACK",
  "Every CPU tile kernel calls the BLAS or LAPACK routine of its name with the dimensions, pointers and leading dimensions of the tiles it was given, in the argument positions defined by the routine, after checking that the tile sizes are compatible; increments and counts of vector kernels are passed unchanged.",
  ["inputs"], "every tile shape, leading dimension and option",
  "Tests use few shapes; a confused leading dimension is invisible when equal.",
  [I + "blas/tile.h", I + "lapack/tile.h", "src/blas/scal.cpp", I + "util_blas.h", I + "util_lapack.h"], [("BLAS tile kernels", I + "blas/tile.h"), ("LAPACK tile kernels", I + "lapack/tile.h")])
p("P38", "Factorisation and inverses are right and touch only their own triangle",
  "The Cholesky factorisation, the inverse of a triangular matrix, the inverse from a Cholesky factor and the reduction of a generalised problem to standard form leave in the requested triangle the factor, inverse or transformed matrix of their definition, locally and on every process grid; they never need an element of the opposite strict triangle, never write a tile of it, and leave the other operand unchanged.",
  ["inputs", "configurations", "schedules"], "every size, tile size, grid, source rank, triangle and matrix content",
  "Tests often do not compare the opposite triangle, and run few sizes and grids.",
  [I + "factorization/cholesky/impl.h", I + "inverse/cholesky/impl.h", I + "inverse/triangular/impl.h", I + "eigensolver/gen_to_std/impl.h"], [("triangular loops", I + "factorization/cholesky/impl.h")])
p("P39", "LAPACK failures are returned or reported",
  "The status returned by every LAPACK routine that can fail is either checked or returned to the caller; variants without a status argument stop with a report when the routine fails.",
  ["fault_sequences", "inputs"], "every call of a fallible LAPACK routine",
  "Inputs that make LAPACK fail are not in the tests.",
  [I + "lapack/tile.h", I + "lapack/gpu", I + "eigensolver/tridiag_solver"], [("LAPACK tile kernels", I + "lapack/tile.h")])
p("P40", "Eigensolver stages are composed in the mathematically required order",
  "The eigensolvers chain reduction to band, band to tridiagonal, tridiagonal solver and the two back-transformations so that each stage consumes the outputs of the stage before, back-transformations are applied in reverse order of the reductions, and the generalised solver factorises, transforms, solves and back-substitutes with one and the same factor and triangle.",
  ["configurations", "inputs"], "every triangle, partial spectrum request and execution mode",
  "A wrong order in one mode is only visible in tests of that mode.",
  [I + "eigensolver/eigensolver/impl.h", I + "eigensolver/gen_eigensolver/impl.h", I + "eigensolver/gen_eigensolver.h"], [("composition", I + "eigensolver/eigensolver/impl.h")])
p("P41", "A partial-spectrum request is honoured through all stages",
  "When only eigenvalues of an index range are requested, the range is validated against the matrix size and passed unchanged to every stage that computes eigenvectors.",
  ["inputs"], "every index range",
  "Tests use few ranges.",
  [I + "eigensolver/eigensolver.h", I + "eigensolver/gen_eigensolver.h"], [("index range handling", I + "eigensolver/eigensolver.h")])
p("P42", "Every declared instantiation exists for all element types",
  "Each algorithm that is declared as available without its implementation header is compiled into the library for all declared element types, devices and backends.",
  ["configurations"], "all element types and algorithms",
  "A missing instantiation is found only when a user links that combination.",
  [I + "eigensolver", I + "factorization", I + "solver", I + "multiplication", I + "inverse", "src"], [("explicit instantiation lists", "src")])

# ---------------------------------------------------------------- C API / configuration
p("P44", "C and ScaLAPACK entry points forward to the routine of their own type",
  "Each C entry point uses the element type of its name, passes its arguments unchanged and in order to the common implementation, and the ScaLAPACK-style variants give the same operation and report status the same way.",
  ["inputs", "configurations"], "every entry point and type letter",
  "The C interface tests run one routine of each kind.",
  ["src/c_api", "include/dlaf_c"], [("C entry points", "src/c_api")])
p("P45", "ScaLAPACK descriptors are mapped field by field",
  "A ScaLAPACK-style descriptor and position map to the matrix description with the same extents, block sizes, source process and leading dimension, row with row and column with column; unsupported positions are rejected.",
  ["inputs"], "every descriptor and position",
  "Square sizes hide interchanges.",
  ["src/c_api/utils.h", "src/c_api/utils.cpp", "include/dlaf_c/desc.h"], [("descriptor conversion", "src/c_api/utils.cpp")])
p("P46", "The C API suspends the task runtime on every exit",
  "A C entry point resumes the task runtime before it starts work, waits for completion of its work before returning, and leaves the runtime suspended on every exit.",
  ["histories"], "every exit path of every entry point",
  "A runtime left running is invisible in tests.",
  ["src/c_api"], [("resume/suspend pairing", "src/c_api")])
p("P47", "Grid contexts are unique while they are alive",
  "The handle returned when a grid is created designates that grid only, for as long as the grid lives, whatever grids were created and freed before; freeing removes exactly that grid.",
  ["histories"], "every sequence of grid creations and frees",
  "Tests create one grid and free it.",
  ["src/c_api/grid.cpp"], [("grid registry", "src/c_api/grid.cpp")])
p("P48", "Configuration precedence and names are consistent",
  "Every tuning and runtime parameter can be set by user configuration, environment variable and command line under consistent names and its own type, the later source overriding the earlier, and takes effect on the parameter of the same name.",
  ["configurations"], "every parameter and combination of sources",
  "Tests do not set each parameter through each source.",
  ["src/init.cpp", "src/tune.cpp", I + "tune.h", I + "init.h"], [("configuration parsing", "src/init.cpp"), ("tune parameters", I + "tune.h")])
p("P49", "Initialisation and finalisation are paired",
  "Everything started by library initialisation (memory pools, communication polling, device handles) is stopped or released by finalisation, exactly once and in reverse dependency order; double initialisation or finalisation is rejected.",
  ["histories"], "every sequence of initialisations and finalisations",
  "Tests initialise once per process.",
  ["src/init.cpp", I + "init.h", "src/memory"], [("initialise/finalise", "src/init.cpp")])
p("P50", "Configured values reach the resource they name",
  "Each configured size or count is applied to the pool or resource of its name, and no value is applied to another resource.",
  ["configurations"], "every configuration value",
  "Pool sizes have no functional effect.",
  ["src/init.cpp", "src/memory/memory_chunk.cpp"], [("resource construction", "src/init.cpp")])
p("P51", "Generic wrappers preserve the call, the value and the ownership they wrap",
  "Callable objects, consuming and unwrapping call wrappers, lazy construction wrappers, the vector with signed sizes, type lists, signature traits and the timer hand every argument (with its value category) and every result through unchanged, evaluate what they wrap exactly once, destroy consumed arguments when the call returns, reject negative sizes and indices, and measure the time since their construction.",
  ["inputs", "programs"], "every wrapped callable, argument and size",
  "Used everywhere with a few argument types; tests do not observe copies, lifetimes or negative sizes.",
  [I + "common/callable_object.h", I + "common/consume_rvalues.h", I + "common/unwrap.h", I + "common/with_result_of.h", I + "common/vector.h", I + "common/timer.h", I + "sender/typelist.h", I + "traits.h"],
  [("call wrappers", I + "common/consume_rvalues.h"), ("signed vector", I + "common/vector.h"), ("type lists", I + "sender/typelist.h")])
p("P52", "Reduction to band and its back-transformation invert each other",
  "The reduction to band form returns a band matrix B and reflectors with unit heads, stored below the band, and scaling factors such that every reflector is unitary and the product Q of all reflectors gives A = Q B Q^H; the tiles of the scaling factors live on every process of the column of the panel and hold the same values there; tiles of the opposite triangle are not written. The back-transformation multiplies its argument from the left by exactly this Q. Both hold locally and on every process grid, for every band size that divides the tile size.",
  ["inputs", "configurations", "schedules"], "every size, tile size, band size, grid, source rank and matrix content in general position",
  "Tests run few sizes and grids and compare within tolerances; a wrong reflector in the last panel or on one rank of a particular grid stays unseen.",
  [I + "eigensolver/reduction_to_band/impl.h", I + "eigensolver/bt_reduction_to_band/impl.h", I + "factorization/qr/t_factor_impl.h"], [("panel reflectors and trailing update", I + "eigensolver/reduction_to_band/impl.h"), ("T factor", I + "factorization/qr/t_factor_impl.h"), ("back-transformation", I + "eigensolver/bt_reduction_to_band/impl.h")])
p("P53", "Band to tridiagonal form and its back-transformation are one unitary map",
  "The reduction of a Hermitian band matrix A (lower triangle, band size dividing the tile size) returns a real symmetric tridiagonal T, on every process, and Householder reflectors such that the back-transformation applied to the identity gives a unitary Q with Q T Q^H = A; only the band of A is read and A is left as it was. This holds locally and on every process grid, for every group size of the back-transformation and every block size of the one-dimensional distribution.",
  ["inputs", "configurations", "schedules"], "every size, tile size, band size, grid, source rank, tuning parameter and matrix content in general position",
  "The bulge-chasing sweeps of different processes overlap through semaphores and tagged messages; tests see the interleavings and sizes they happen to run.",
  [I + "eigensolver/band_to_tridiag/mc.h", I + "eigensolver/bt_band_to_tridiag/impl.h"], [("sweeps, semaphores and messages", I + "eigensolver/band_to_tridiag/mc.h"), ("back-transformation", I + "eigensolver/bt_band_to_tridiag/impl.h")])
# ---------------------------------------------------------------- not decidable statically here
p("P60", "Computed factorisations, solutions and eigenpairs are backward stable",
  "For every well-posed input the computed factor, solution or eigenpairs satisfy the usual backward error bounds proportional to the machine precision.",
  ["inputs"], "every matrix",
  "Tests use random or analytically known matrices.",
  [I + "factorization", I + "eigensolver", I + "solver"], [("numerical algorithms", I + "eigensolver")])
p("P61", "Distributed algorithms always terminate",
  "With every rank calling the same sequence of operations, no schedule of tasks and messages deadlocks.",
  ["schedules"], "every schedule",
  "Needs unlucky schedules.",
  [I + "common/pipeline.h", I + "communication"], [("task graph", I + "common/pipeline.h")])
p("P62", "Repeated runs give reproducible results",
  "The same input, grid and configuration give the same result in every run, independent of task scheduling.",
  ["schedules"], "every schedule",
  "Differences are within tolerances.",
  [I + "eigensolver", I + "factorization"], [("order of updates", I + "factorization")])
for x in P: print(json.dumps(x, ensure_ascii=False))
