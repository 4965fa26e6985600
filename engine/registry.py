"""What decides each property."""
VG = 'value graphs (global value numbering with random interpretation) of the compiled source, compared with a reference model'
VG_NOTE = ('Each obligation is a law over functions of /repo. The current source is compiled to LLVM IR together with the law, inlined, and turned into one '
           'hash-consed value graph with gated merges. A law is discharged when both sides get the same value number, otherwise the residual identity of the two '
           'graphs is decided by random interpretation of the graph over the stated domain (valuations = evaluation points of the graph; no code of /repo runs). ')
PROPS = {}


def prop(pid, technique, note, laws=(), rules=(), witness=(), level='other', assumptions=()):
    PROPS[pid] = dict(technique=technique, note=note, laws=list(laws), rules=list(rules), witness=list(witness), level=level, assumptions=list(assumptions))


prop('P01', VG, VG_NOTE, ['P01.cpp'])
prop('P02', VG, VG_NOTE, ['P02.cpp'])
prop('P03', VG, VG_NOTE, ['P03.cpp'])
prop('P04', VG, VG_NOTE, ['P04.cpp', 'P03.cpp@view', 'P10.cpp@cm_offset|cm_min_size|user_memory|tiles_explicit', 'P25.cpp', 'P37_tile.cpp@gemm|lacpy|laset|set0', 'alg_copy.cpp@all|part|views|redist_2x1|redist_1x2'])
for _p in ('P05', 'P06', 'P07', 'P08', 'P09', 'P10', 'P11', 'P12', 'P14', 'P20', 'P21', 'P22', 'P23', 'P25', 'P31', 'P36', 'P51'): prop(_p, VG, VG_NOTE, [_p + '.cpp'])
prop('P22', VG, VG_NOTE, ['P22.cpp', 'P22_report.cpp'])
prop('P37', VG, VG_NOTE, ['P37.cpp', 'P37_tile.cpp'])
ALG_NOTE = VG_NOTE + ('Whole algorithms: matrices of a few tiles with arbitrary elements, every option combination, local and on small grids with different source ranks. '
                      'Processes, tasks that block and workers of a bulk are interpreted as fibers that suspend themselves; a message completes when its peer has posted it, and what is received is a named unknown bound to what the peer sends. '
                      'BLAS, LAPACK and MPI have their textbook meaning; the task runtime is a model with two schedules (program order; as late as possible, youngest first), odd ranks using the other one. Sizes and grids are bounded as listed, element values are not.')
prop('P35', VG, ALG_NOTE, ['alg_trsm.cpp', 'alg_trmm.cpp', 'alg_mult.cpp'])
prop('P38', VG, ALG_NOTE, ['alg_fact.cpp'])
prop('P52', VG, ALG_NOTE, ['alg_red2band.cpp'])
prop('P53', VG, ALG_NOTE, ['alg_band.cpp'])
prop('P40', VG, ALG_NOTE, ['alg_eig.cpp@std|gen|fac|band4'])
prop('P41', VG, ALG_NOTE, ['alg_eig.cpp@part|bad|gen_1x2|fac_2x1'])
prop('P28', VG, ALG_NOTE, [a + ':meet' for a in ('alg_trsm.cpp', 'alg_trmm.cpp', 'alg_mult.cpp', 'alg_fact.cpp', 'alg_red2band.cpp', 'alg_band.cpp')])
prop('P15', VG, ALG_NOTE, ['alg_matrix.cpp@accesses|sub|retiled|destroyed'])
prop('P16', VG, ALG_NOTE, ['alg_matrix.cpp@wait'])
prop('P18', VG, ALG_NOTE, ['alg_panel.cpp'])
prop('P19', VG, ALG_NOTE, ['alg_copy.cpp'])
prop('P24', VG, ALG_NOTE, ['alg_comm.cpp@broadcast|reduce|p2p|staged'])
prop('P27', VG, ALG_NOTE, ['alg_comm.cpp@in_order|released|rounds'])
prop('P17', VG, VG_NOTE, ['P17.cpp'])
WIT_NOTE = ('Type-level witnesses: a translation unit built by the compiler front end against the current headers (no code generation, nothing runs). Every witness names the forbidden program, '
            'an expression that must not type-check, and a positive control of the same shape that must, so that a witness cannot hold for an unrelated reason.')
prop('P13', 'type-level witnesses: programs that write through read access must not type-check against the current headers', WIT_NOTE, witness=['P13.cpp'])
CAPI_NOTE = VG_NOTE + 'The C layer is the real one; the library routines behind it are recorders that note which routine of which type was called with what, and the runtime records its state.'
prop('P44', VG, CAPI_NOTE, ['P44.cpp@^fwd'])
prop('P45', VG, CAPI_NOTE, ['P44.cpp@^map'])
prop('P46', VG, CAPI_NOTE, ['P44.cpp@^exit'])
prop('P47', VG, CAPI_NOTE, ['P47.cpp'])
AST_NOTE = ('Queries over the type-checked syntax trees of every header and every CPU source of the current tree (front end only, against a model of the task runtime). '
            'Each obligation is one call site, declaration or translation unit. ')
prop('P26', 'query over the type-checked program: every call of MPI, and the declarations its communicator derives from', AST_NOTE, rules=['mpi_layer'])
prop('P30', 'must-use types checked in every instantiation (compile-fail diagnostics), and a liveness query for variables that hold deferred work', AST_NOTE, rules=['discarded'])
prop('P33', 'flow-sensitive use-after-move analysis of every instantiation (clang-tidy bugprone-use-after-move, post-processed)', AST_NOTE + 'Warnings whose variable is assigned again on some of the paths between move and use are listed as undecided.', rules=['moved'])
prop('P42', 'query over the type-checked program: explicit instantiation declarations against definitions in the sources that the build lists', AST_NOTE, rules=['eti'])
prop('P31', VG + '; scope-liveness query over the syntax tree and call graph', VG_NOTE + AST_NOTE, ['P31.cpp'], rules=['single_threaded'])
prop('P29', 'lifetime typestate of every local object and allocation over the gated value graph of whole algorithms', ALG_NOTE + 'Every object is dead after the end of its scope or its release; a read, write or copy of a dead object under a satisfiable guard is a violation, whatever it reads.',
     ['alg_fact.cpp:expired', 'alg_trsm.cpp@lln|rut|lut_2x2|rln_src:expired', 'alg_band.cpp@band$|band_src:expired', 'alg_red2band.cpp@reduce$|reduce_src|back$|back_src:expired', 'alg_comm.cpp:expired', 'alg_matrix.cpp:expired'])
prop('P34', VG, VG_NOTE + ' The implementations behind the entry points are replaced by functions that write down what they were called with.', ['P34.cpp'])
prop('P39', VG + '; result-flow query over every call of a fallible LAPACK routine', VG_NOTE + AST_NOTE, ['P39.cpp'], rules=['info'])
prop('P32', VG + '; effect query over the arguments of every assertion', VG_NOTE + AST_NOTE, ['P32.cpp', 'P32_report.cpp'], rules=['assertions'])
CFG_NOTE = ' Text, environment, command line, MPI, pika and Umpire are reference models that write down what they are asked; both variants of the pika version and builds with and without GPU are analysed.'
prop('P48', VG, VG_NOTE + CFG_NOTE, ['P48.cpp'])
prop('P49', VG, VG_NOTE + CFG_NOTE, ['P49.cpp@history|scoped|help|twice|end_|thread|no_mpi'])
prop('P50', VG, VG_NOTE + CFG_NOTE, ['P49.cpp@history|applied', 'P50.cpp', 'P50_use.cpp'])
NA = {
    'P60': 'rounding errors of a whole algorithm: no static argument in reach bounds the backward error of task graphs built at run time; no structural clause of its own (the compositional clauses are P35, P37, P40)',
    'P61': 'termination of an asynchronous task graph depends on runtime scheduling and message matching; the structural necessary conditions are decided under P14, P27, P28 and P30',
    'P62': 'reproducibility depends on the reduction order chosen by MPI and the task runtime',
}
