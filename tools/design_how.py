HOW = {
'P01': 'Observers construct a distribution from symbolic sizes, grids, ranks and offsets and return each index map; the reference is own block-cyclic arithmetic on 64-bit integers. Local/global round trips, ownership (every element on exactly one rank), next-local-tile as a minimum, and rejection of invalid constructions.',
'P02': 'Sums of tile sizes and local sizes over ranks and tiles, as laws over symbolic sizes.',
'P03': 'Sub-distributions, views and retiled distributions: element (i, j) of the view is the parent element (i + origin), same owner, for symbolic origins and sizes.',
'P04': 'Exchange and independence, query by query: for every member and helper that takes a coordinate, the row answer of a distribution is the column answer of the distribution with rows and columns exchanged, and it stays the same when everything about the columns is replaced; the same exchange for constructors, parts, retiling, views and pairs. Rectangular tiles, layouts, grids and copies are decided by the laws of P03, P10, P25, P37 and P19 in which row and column sizes are independent symbols.',
'P05': 'Arithmetic, comparison, transposition and range checks of Index2D/Size2D for each tag, on symbolic values, with and without assertions.',
'P06': 'Iteration is turned into its sequence of indices; order, number and uniqueness are laws.',
'P07': 'The value after the conversion equals the mathematical value or the conversion stops.',
'P08': 'Helper functions against their mathematical definition, including boundary values.',
'P09': 'The n-th request after k earlier ones is resource (k + n) mod size, for symbolic cursor positions.',
'P10': 'Offsets of tiles and elements computed by every layout stay within the minimum memory size and are injective, for symbolic sizes, leading dimensions, padding and distributions.',
'P11': 'The set of addresses which a data descriptor or a copy touches is compared with the elements described.',
'P12': 'Typestate of datatypes, communicators, allocations and views: constructors, moves, assignments and destructors as event sequences; each resource freed exactly once.',
'P14': 'Tiles, their sub-tiles, copies and read accesses: events on the dependency they hold, and storage they refer to.',
'P20': 'Datatype constants per element type; mapping for qualified types.',
'P21': 'Pointer, count and datatype of a message against the elements of its data.',
'P22': 'Every MPI function called by the communication layer fails in turn (`mpi_fail`): execution must not continue as if it had succeeded; the report names the call.',
'P23': 'Arguments of the MPI calls made by each kernel against those handed in, including staging through buffers.',
'P25': 'Grid construction with symbolic numbers of rows, columns and ordering; MPI_Comm_split colours and keys; ranks of row, column and full communicators.',
'P28': 'The communication skeleton of all distributed algorithms: every collective is joined by all processes with the same operation, root and length, every send has its receive, every task completes (values ignored).',
'P31': 'Thread counts of OpenMP and MKL before, inside and after (nested, moved) scopes as events. Every call of a BLAS or LAPACK routine in the library: a scope object is alive in the callable that makes it, or at every call of that callable; no wait, acquire or barrier while one is alive.',
'P32': 'The value graph of each observed function with all assertions is that without assertions, wherever no assertion fails; assertion reports neither change state nor return. An effect analysis over the syntax tree of every assertion in the library (condition and message) shows that evaluating it assigns, increments, allocates and communicates nothing, through every function it calls.',
'P35': 'Triangular solve, triangular, general, Hermitian multiplication: all combinations of side, uplo, op, diag, local and on grids with source ranks; result, untouched operands, communication.',
'P36': 'Dispatch over options: every option value reaches the BLAS/LAPACK call of that option.',
'P37': 'Arguments of the BLAS/LAPACK calls of all tile kernels against the geometry of their tiles.',
'P38': 'Cholesky, inverse from Cholesky factor, triangular inverse, generalised to standard: mathematical identity on symbolic matrices; other triangle untouched; local and grids.',
'P51': 'Wrappers (consume, unwrap, callable objects, vectors, with_result_of): same callee, values, value category, ownership.',
'P52': 'The reflectors are read back as a user would, applied to the band matrix in the law, and compared with the input; the back-transformation is compared with textbook reflectors.',
'P53': 'Both stages run one after the other on the identity: Q T Q^H = A and Q^H Q = I.',
'P40': 'The public eigensolvers with the tridiagonal solver replaced by a model that records T and returns permuted unit vectors: E^H A E is that T and E^H B E = I, for standard, generalised and factorised problems, both interfaces, local and grids.',
'P41': 'The same law restricted to the requested columns, and rejection of every index range outside of the documented one.',
'P15': 'Tasks x := 2 x + c on every tile through the parent, sub-pipelines, retiled, read-only and nested ones, requested in another order than they have to run; released by scope, `done`, move and assignment; the result shows the order. Both schedules.',
'P16': 'Every access requested before the wait has ended when it returns (counted), through the matrix and its sub-pipelines, in the schedule in which nothing runs unless waited for.',
'P18': 'Extents of every tile for ranges given by tile and by element, widths, resets in between, any start of the workspace, several processes; external tiles seen where set and gone after reset; broadcasts of panels to rows, columns and transposed panels on grids with source ranks.',
'P19': 'Matrices with arbitrary elements are copied between distributions of different tiles and source ranks on 1x1, 2x1, 1x2, 2x2, 3x1, 1x3 grids and compared; messages are matched by MPI rules (source, destination, tag, order of posting), with processes that run their tasks in opposite orders.',
'P24': 'Each asynchronous operation on contiguous and strided tiles, for real and complex elements: results on every process, padding untouched, the next writer of the tile waits for the end of the operation (operations complete as late as MPI allows); `withTemporaryTile` for all eight option combinations.',
'P27': 'Two operations on one communicator whose tiles become ready in the opposite order go out in program order on every process; an operation that is posted but not complete does not keep the communicator; shared, exclusive and sub-pipeline access in rounds. The communication skeletons of all algorithms (P28) add that no collective overtakes another one.',
'P13': '32 witnesses: what read access delivers (tiles, matrix references, panels, mirrors, sub- and retiled pipelines, column-major views) has no operation that yields modifiable elements, and no read-only object converts, moves or assigns into a modifiable one; each with a positive control on the writable counterpart.',
'P17': 'The real mirror over recording matrices on two devices: which copies are issued, in which direction and order, for construction, explicit synchronisation, move, assignment and destruction; nothing is written back for read-only sources; no copy at all on the same device.',
'P44': 'Every C entry point (4 types x routines x ScaLAPACK variants) against a recorder: the routine of the own type, every argument unchanged and in place, the result written to the buffers of the caller, `info` set.',
'P45': 'Layouts built from arbitrary descriptors and positions, field by field; unsupported positions stop; contexts that name no grid stop.',
'P46': 'The state of the runtime as a typestate: resumed before the first use, all work finished before the return, suspended on every exit, the early ones included.',
'P47': 'The real registry: creation and freeing in every order of five grids with arbitrary choices, contexts taken over from BLACS, the order of processes in the grid.',
    'P26': 'Every call of an MPI function in the library. In the communication layer it is allowed; elsewhere a call that communicates has to use a value derived from a communicator parameter of the enclosing callable (those are handed out by the pipelines) and no predefined communicator. Local queries (rank, size, types) are free.',
    'P29': 'The algorithm laws of P38, P35, P53, P52, P27 and P15 again, with lifetimes: locals die at the end of their scope (also when the creator of a task returns), heap storage when released. Both schedules, so that tasks run as late as possible. The tridiagonal solver and the permutations are outside (no law interprets them).',
    'P30': 'All senders and adaptors of the runtime model are must-use types; the front end instantiates every header through every source and reports each dropped one. Variables of deduced type are checked by a query. Positive and negative controls in witness/discard.cpp.',
    'P33': 'clang-tidy on every CPU source, all instantiations, with controls in witness/moved.cpp. Index ranges (trivially copyable, checked) are excluded. Two conditionally re-assigned variables are undecided on the current tree (send_col_dep, trigger_panel).',
    'P42': 'All extern templates of the headers against the explicit instantiations in src, and src against src/CMakeLists.txt; per class template the set of element types must be complete.',
    'P34': 'Every public algorithm, local and distributed, with arbitrary sizes, blocks, tiles, process grids, positions and options: it stops exactly when a documented relation is broken, and otherwise calls exactly the implementation of its options with the arguments it was given (31 laws, the deletion of any check of the headers is noticed).',
    'P39': 'Every tile kernel over LAPACK with an arbitrary status (all four types): non-zero stops with a report or is returned unchanged, zero is silent. Every call of a fallible LAPACK routine in the library: its status is compared with 0, returned or handed on.',
    'P48': 'updateConfiguration as a whole with ten patterns of what the environment and the command line give, each parameter with its own arbitrary value: every member of configuration and TuneParameters equals the one of the last source that names it (names derived from the member names), and nothing else changes. Every option is described once with its own type; every printed name shows its own value; boolean texts; a wrong one stops.',
    'P49': 'Two rounds of initialize and finalize and the scoped form, with and without MPI and GPU: what is started is started once, what finalize releases is released once, the configuration is set and reset; a second initialize, an early or second finalize, --dlaf:help and too little thread support of MPI stop.',
    'P50': 'The values of the configuration (from the user, the environment or the command line) against what the allocators, pools and polling are started with; Umpire pools against the memory, sizes, alignment and coalescing ratios asked for; tuning parameters against the numbers of workers, waiting times, block and band sizes and layouts computed from them.',
}
