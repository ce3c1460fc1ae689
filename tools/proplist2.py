prop("C07", "64-bit coefficients are never truncated",
     "Coefficients of constraint systems, matrices and schedules are 64-bit integers from input to result: no operation "
     "silently drops the upper half of a coefficient, passes it through a narrower variable, parameter or a floating-point "
     "number. Where an interface only has room for less, a value that does not fit is refused or saturated visibly.",
     ["inputs"], "every coefficient value an int64_t can hold, through every operation",
     "Tests only use small coefficients, for which narrowing is invisible.",
     ["lib/constraints.c", "lib/constraints_isl.c", "lib/math_support.c", "lib/framework.cpp", "lib/plutolib.c", "lib/tile.c"],
     [("int64_t coefficient type", "lib/math_support.h: PlutoMatrix; lib/constraints.h: PlutoConstraints")],
     "def-use analysis of every integer narrowing on LLVM IR, with dominating range checks",
     TB + "All truncations in the library are classified by the origin of their operand; a sound range guard must dominate.")

prop("C08", "Silent mode writes nothing to standard output",
     "With the silent option set (and debugging off), no call of the public interface writes anything to standard output, "
     "directly or through a solver's terminal output, whatever the input, the other options or the failures on the way.",
     ["inputs", "configurations"], "every input and every combination of the other options",
     "Tests compare the output of a few default runs; a message on an unusual path is only seen by the user who pipes the output.",
     ["lib/*.c", "lib/*.cpp"], [("output is guarded by options->silent", "lib/pluto.c, lib/plutolib.c, lib/program.cpp, lib/framework.cpp, lib/tile.c")],
     "interprocedural conditional constant propagation and reachability on LLVM IR with silent=1, debug=moredebug=0",
     TB + "Every call reachable from the public interface under the assumed option values is inspected for standard-output writers.")

prop("C09", "Printers and readers use only the stream they are given",
     "A function that is given a stream prints to, or reads from, that stream and no other: all of its output, including "
     "that of helpers it calls and of every disjunct or element of the object, goes to the stream the caller passed.",
     ["inputs", "configurations"], "every object printed and every stream",
     "Tests capture standard output as a whole and cannot tell which stream was meant.",
     ["lib/constraints.c", "lib/math_support.c", "lib/program.cpp", "lib/polyloop.c", "lib/pluto.c"],
     [("FILE * parameters of print and read functions", "lib/constraints.h, lib/math_support.h, lib/program.h")],
     "interprocedural value-origin analysis of stream operands on LLVM IR",
     TB + "Every stdio call and every call passing a stream inside a stream-taking function is traced to the parameter.")

prop("C10", "Diagnostics and assertions never influence what is computed",
     "Turning silent, debug or moredebug on or off, or compiling the assertions out, changes only what is printed: the "
     "schedules, dependences, loops and every other object and result computed are identical.",
     ["inputs", "configurations"], "every program, every setting of the diagnostic options, assertions in or out",
     "Tests run with one setting of the diagnostics and with assertions in.",
     ["lib/*.c", "lib/*.cpp"], [("diagnostic code only prints", "lib/pluto.c, lib/framework.cpp, lib/tile.c, lib/program.cpp, lib/plutolib.c")],
     "interprocedural information-flow (non-interference) analysis of the diagnostic options, and effect analysis of assertion conditions, on LLVM IR",
     TB + "Every region controlled by a diagnostic option may only print or work on local scratch objects; assertion conditions have no effects.")

prop("C11", "Copies are complete and independent of the original",
     "A copy of a constraint system (all disjuncts of a union included), matrix, statement, access, dependence, loop, band or "
     "dependence list carries the value of every field and every element of its original and owns its own memory: changing or "
     "releasing either one never affects the other. Copying into an existing object leaves nothing of its old contents. (Only "
     "the statement's id, the satisfaction and direction vectors of a dependence and spare capacity are not copied.)",
     ["inputs", "histories"], "every object and every state it can be in",
     "Tests copy a few freshly made objects and never compare all fields, nor change one copy to look at the other.",
     ["lib/constraints.c", "lib/math_support.c", "lib/program.cpp", "lib/polyloop.c"],
     [("deep copies", "pluto_constraints_copy/_dup(_single), pluto_matrix_dup, pluto_stmt_dup, pluto_dep_dup, pluto_access_dup, pluto_loop_dup, pluto_band_dup, pluto_deps_list_dup")],
     "path-sensitive must-analysis of field and element copies on LLVM IR (loop ranges, guards, helpers), plus alias analysis of stored pointers",
     TB + "Each field of the struct layouts read from the debug information is an obligation; loop forms that are not recognised are not reported.")

prop("C12", "Objects are completely initialised when they are created",
     "Every constraint system, matrix header, program, statement, dependence, access, loop, band, graph, list node, context and "
     "options object the library creates has every field set by the time it leaves its constructor, on every path; a new "
     "constraint system is all zero, and a new statement has all of its per-dimension arrays filled in.",
     ["inputs", "histories"], "every object created, on every path",
     "What an uninitialised field contains depends on the heap's history; in a short test run it is usually zero.",
     ["lib/constraints.c", "lib/math_support.c", "lib/program.cpp", "lib/polyloop.c", "lib/ddg.c", "lib/plutolib.c"],
     [("allocation functions", "pluto_constraints_alloc, pluto_matrix_alloc, pluto_prog_alloc, pluto_stmt_alloc, pluto_dep_alloc, pluto_loop_alloc, pluto_band_alloc, graph_alloc, pluto_options_alloc")],
     "interprocedural must-write (definite initialisation) dataflow analysis on LLVM IR",
     TB + "Every allocation site of the listed structs, found by type, times every field of the struct is an obligation.")

prop("C13", "Destructors release everything their argument owns",
     "Releasing a constraint system, matrix, program, statement, dependence, access, loop, band, graph, list, context, options "
     "or remapping releases all memory it owns: every owned field, every element of its arrays, every disjunct of a union and "
     "every node of a list, and the object itself, whatever state the object is in.",
     ["inputs", "histories"], "every object in every state it can reach",
     "Tests do not check for leaks, and few of the optional fields are ever set in them.",
     ["lib/constraints.c", "lib/math_support.c", "lib/program.cpp", "lib/polyloop.c", "lib/ddg.c", "lib/plutolib.c"],
     [("destructors", "pluto_constraints_free, pluto_matrix_free, pluto_prog_free, pluto_stmt_free, pluto_dep_free, pluto_access_free, pluto_loop_free, pluto_band_free, graph_free, pluto_remapping_free")],
     "path-sensitive must-release analysis on LLVM IR (loop ranges, guards, helpers) against a table of owned fields",
     TB + "Each owned field, and the elements of each owned array, of each destructor is an obligation.")

prop("C14", "No statement, dependence, access or row is left out of a pass over them",
     "A step that treats all statements, dependences, accesses, loops, graph vertices, components or rows treats every one of them, "
     "from the first to the last of that collection: legality constraints are collected from every dependence that is not "
     "satisfied (input dependences only when asked for), parallelism, permutability and satisfaction are judged on every "
     "dependence, schedules, padding and code generation cover every statement, and every set, map and piece of an isl object that is "
     "read is taken in. An element is passed over only for the reasons "
     "the step is defined by, and the step stops early only when its answer is already known.",
     ["inputs", "programs", "configurations"], "every element of every collection, in programs of any size",
     "The test programs are small and have few kinds of dependences; an element left out of a pass often changes nothing in their output.",
     ["lib/framework.cpp", "lib/framework-dfp.c", "lib/pluto.c", "lib/polyloop.c", "lib/program.cpp", "lib/tile.c", "lib/ddg.c", "lib/constraints.c"],
     [("passes over prog->deps and prog->stmts", "lib/framework.cpp: get_permutability_constraints, get_scc_permutability_constraints; lib/pluto.c: dep_satisfaction_update, deps_satisfaction_check; lib/polyloop.c: pluto_loop_is_parallel"),
      ("passes over rows", "lib/constraints.c, lib/math_support.c")],
     "induction-variable range analysis and iteration-level path conditions on LLVM IR, against each collection's own count and a reviewed table of the reasons each pass skips elements",
     TB + "The table pl/tables/passes.json lists, per pass and action, the conditions under which an element is acted upon; conditions on values the analysis cannot name are not judged.")

prop("C15", "Operations on a union treat every disjunct, exactly once",
     "A constraint system can be a union: a list of disjuncts. An operation on it (resizing, adding or removing dimensions, rows and "
     "bounds, fixing a variable, simplifying, eliminating, projecting, interchanging columns, copying, releasing, counting, printing, "
     "appending, emptiness, constant bounds, conversion to isl) is carried out on every disjunct, exactly once, with the same "
     "arguments, and what it answers takes every disjunct into account. An operation that is only defined for a single system refuses "
     "a union instead of treating its first disjunct alone.",
     ["inputs"], "every union, with any number of disjuncts of any shape",
     "The test programs have single-disjunct domains almost everywhere; disjuncts after the first are hardly ever looked at.",
     ["lib/constraints.c", "lib/constraints_isl.c", "lib/program.cpp"],
     [("list of disjuncts", "struct pluto_constraints: next; lib/constraints.c: the operations that recurse on or loop over cst->next")],
     "path-sensitive typestate analysis of the list of disjuncts on LLVM IR (recursion, list walks, delegation), against a table of the operations on unions",
     TB + "35 operations on unions, 11 operations that hand whole operands on, 10 operations for single systems.")

prop("C16", "The same input gives the same result",
     "What the library computes is determined by its input: two runs (or two calls) with the same program, options and option files "
     "give identical schedules, loops, dependences, tile sizes and texts. No result depends on the time, on random numbers, on the "
     "process or its environment, on where objects happen to lie in memory, or on memory that was never written.",
     ["inputs", "histories"], "every input, in every process, with any heap layout and any previous use of the heap",
     "A test sees one run; fresh memory is usually zero there, and the addresses are much the same each time.",
     ["lib/*.c", "lib/*.cpp"],
     [("statistics are the only use of the clock", "lib/pluto.c, lib/framework-dfp.c, lib/tile_size_selection_model.cpp: rtclock"),
      ("arrays and matrices are filled by the code that allocates them", "lib/framework-dfp.c: colourings, fusion conflict graph; lib/pluto.c: solutions; lib/iss.c: num_long_deps; lib/program.cpp: pluto_prog_add_hyperplane")],
     "taint analysis of clock values, provenance analysis of ordered pointers, and path-sensitive definite-assignment of locals, arrays and matrices on LLVM IR",
     TB + "Every call, comparison, local variable, stack or heap array and matrix in the library is an obligation; arrays filled through a running counter are not followed.")

prop("C17", "The library leaves the process and the file system alone",
     "Calling the library has no effect on the calling process or its files beyond the documented ones: it starts, signals and ends no "
     "process (except when memory runs out), changes no process-wide setting (locale, environment, signal handlers, working directory, "
     "random state, stream buffering), closes none of the caller's streams, and opens no file but the documented control files "
     "(.fst, .precut, skipdeps.txt, tile.sizes, codegen.context), which it only reads; the one file it writes (.regtile) is written on "
     "the code generation tool's request only, never on the way of a transformation. A missing, short or malformed control file is "
     "reported and ignored, not fatal.",
     ["inputs", "configurations", "environments"], "every call, with any control files present",
     "A test does not notice what it does not look for: other files, settings, or an exit on an input that it does not contain.",
     ["lib/*.c", "lib/*.cpp"],
     [("control files", "lib/pluto.c: precut; lib/framework.cpp: get_permutability_constraints; lib/tile.c: read_tile_sizes; lib/program.cpp: read_codegen_context_from_file; lib/post_transform.c: gen_reg_tile_file"),
      ("out of memory", "lib/constraints.c: pluto_constraints_alloc")],
     "effect analysis over the call graph (external calls, constant file names and modes) and control-dependence of process termination on failed allocations, on LLVM IR",
     TB + "Every call to an external function is an obligation; failed assertions are not counted as ending the process.")

prop("C18", "What can be absent is looked at before it is used",
     "Results that may not exist (no solution, no legal hyperplane, no common dimension, no band, a control file that is not there), "
     "members that are only there in some objects (names, the next disjunct, constraints not computed yet, satisfaction vectors, evicted "
     "hyperplanes, texts) and operands a caller may leave out (names, contexts, reads and writes, schedules, empty lists) are never "
     "dereferenced without having been looked at: the absent case is treated, whatever the input.",
     ["inputs", "programs", "configurations"], "every call whose result can be absent, on every path",
     "In the test programs there is nearly always a solution, and the optional parts are nearly always there.",
     ["lib/*.c", "lib/*.cpp"],
     [("absent results", "lib/constraints.c: pluto_constraints_lexmin*; lib/framework.cpp: get_*_constraints, get_face_with_concurrent_start; lib/framework-dfp.c: get_convex_successors, get_common_dims; lib/polyloop.c"),
      ("optional members and operands", "include/pluto/pluto.h, lib/pluto.h; lib/constraints.c: pluto_constraints_free, _dup, _add; lib/program.cpp: pluto_stmt_alloc, compute_deps_isl")],
     "path-sensitive null-value propagation with function summaries (which parameters are dereferenced when NULL, which results can be NULL) on LLVM IR",
     TB + "Every call whose result can be absent, every load of an optional member, every literal NULL operand and every variable that starts as NULL is an obligation; elements of arrays of pointers are not followed.")

prop("C19", "Texts fit the memory they are written to",
     "Every text the library builds (names of iterators, parameters and dimensions, printed hyperplanes and affine functions, bound and "
     "extent expressions, what is read from files) fits the memory it is written to, terminator included, whatever the lengths of the names, "
     "the values of the numbers and the number of dimensions involved; it is terminated when it is used, never written over while it is "
     "being read, and not cut (the printers that abbreviate names to five characters excepted).",
     ["inputs", "programs"], "every name length, number and number of dimensions",
     "The test programs have names of one or two characters and small numbers; a byte too many usually falls into the padding of the heap block.",
     ["lib/program.cpp", "lib/math_support.c", "lib/constraints.c", "lib/plutolib.c", "lib/tile.c"],
     [("generated names", "lib/plutolib.c: extract_stmt, lib/tile.c: pluto_tile_band; lib/program.cpp: basic_map_extract_dep; lib/math_support.c: concat, pluto_affine_function_print"),
      ("expressions", "lib/program.cpp: pluto_stmt_print_hyperplane, get_func_of_expr, get_parametric_extent")],
     "flow-sensitive length/capacity analysis with linear forms over string lengths and digit counts, into helpers, on LLVM IR",
     TB + "Every write of a text is an obligation; a write whose bound cannot be shown is reported. Character-by-character loops are judged only when the index is provably outside.")

prop("C20", 'Parts that describe the same dimensions and statements change together',
     "Every operation that adds, removes, exchanges or moves a dimension, a hyperplane, a parameter or a statement updates, consistently and at the same position, everything that has one entry for it, and nothing else: the statement's domain, schedule rows and columns, access functions, iterator names, hyperplane types and loop flags, the program's hyperplane properties, parameter names and counts, and the polyhedra and statement numbers of all dependences, transitive ones included. This covers pluto_stmt_add_dim and _remove_dim, pluto_stmt_add_hyperplane, pluto_prog_add_hyperplane, pluto_prog_add_param, pluto_sink_transformation, pluto_sink_statement, pluto_separate_stmt(s), pluto_interchange, pluto_stmt_loop_interchange, pluto_add_stmt, pluto_remove_stmt, pluto_update_deps, the distribution of components (cut_all_sccs, cut_between_sccs, cut_scc_dim_based, cut_smart, cut_conservative, precut), pluto_add_hyperplane_from_ilp_solution, index-set splitting's renumbering of dependences, and the row and column operations of matrices and constraints below them.",
     ['programs', 'histories'], 'every program, position and sequence of such operations',
     'A part left behind shows up only when a later pass reads it, for a statement, position or dependence that the six test programs do not have.',
     ['lib/program.cpp', 'lib/transforms.c', 'lib/pluto.c', 'lib/math_support.c', 'lib/constraints.c', 'lib/iss.c'],
     [('dimensions and hyperplanes', 'lib/program.cpp: pluto_stmt_add_dim, pluto_stmt_remove_dim, pluto_prog_add_hyperplane, pluto_stmt_add_hyperplane, pluto_prog_add_param; lib/transforms.c'), ('statements and dependences', 'lib/program.cpp: pluto_add_stmt, pluto_remove_stmt; lib/iss.c: pluto_update_deps_after_iss'), ('distribution', 'lib/pluto.c: cut_*, precut')],
     "equality of normal forms: gated value numbering over LLVM IR (loops as index sets, helpers entered, conditions as intervals) against a reviewed specification of every function's effects",
     TB + "Every case (place changed, condition, value) of every function listed is an obligation; values carried round loops that have no closed form are treated as unknown and are not decided.")

prop("C21", 'Matrix and constraint operations do what they are documented to do',
     'Each operation on matrices and constraint systems changes exactly the entries it is documented to change, to the documented values, for all sizes: adding, removing, zeroing, negating, moving, interchanging and reversing rows and columns, copying, resizing and comparing, identity and products; adding equalities, inequalities and constant bounds, fixing a variable, negating a constraint (affine: the complement of a x >= 0 is -a x - 1 >= 0), converting equalities into pairs of inequalities, half spaces of a hyperplane, union lists, renaming and shifting dimensions, Gaussian and Fourier-Motzkin elimination steps, gcd and lcm, and the Farkas system (one equality per variable and one for the constant, a non-negative multiplier per face and one for the translation).',
     ['inputs'], 'all matrices and systems, of every size',
     'Unit tests sample a few small systems; a wrong sign, an entry too many or a row left out shows only for particular sizes and signs.',
     ['lib/constraints.c', 'lib/math_support.c'],
     [('matrices', 'lib/math_support.c'), ('constraints', 'lib/constraints.c: pluto_constraints_*, farkas_lemma_affine, fourier_motzkin_eliminate')],
     "equality of normal forms: gated value numbering over LLVM IR (loops as index sets, helpers entered, conditions as intervals) against a reviewed specification of every function's effects",
     TB + "Every case (place changed, condition, value) of every function listed is an obligation; values carried round loops that have no closed form are treated as unknown and are not decided.")

prop("C22", 'The problem solved for a hyperplane is the documented one',
     'The system from which hyperplanes are found is built as documented, for every program and option: per dependence, legality and bounding constraints from the Farkas lemma with the source and target coefficients at their columns and with the right signs; a non-trivial solution (a sum of coefficients of at least one for each statement that still needs hyperplanes in eager mode, for all of them together in lazy mode); lower and upper bounds of the coefficients; linear independence of the hyperplanes found; concurrent start and the cone complement for diamond tiling; index-set splitting; sums of objectives per component. The problem handed to GLPK has the same rows, bounds, objective and kinds of columns; the solution read back is entered for each statement from its own columns, and an infeasible or unbounded result yields no hyperplane.',
     ['inputs', 'programs', 'configurations'], 'every program and option',
     'A coefficient in the wrong column or a missing bound still gives a legal schedule for most programs; tests compare six.',
     ['lib/framework.cpp', 'lib/pluto.c', 'lib/constraints.c', 'lib/framework-dfp.c', 'lib/iss.c'],
     [('legality and bounding', 'lib/framework.cpp: compute_permutability_constraints_dep, get_permutability_constraints'), ('non-trivial, bounded, independent', 'lib/pluto.c: get_non_trivial_sol_constraints, get_coeff_bounding_constraints, get_linear_ind_constraints'), ('solver', 'lib/constraints.c: *_glpk; lib/pluto.c: pluto_add_hyperplane_from_ilp_solution'), ('diamond tiling', 'lib/pluto.c: find_cone_complement_hyperplane, is_concurrent_start_face')],
     "equality of normal forms: gated value numbering over LLVM IR (loops as index sets, helpers entered, conditions as intervals) against a reviewed specification of every function's effects",
     TB + "Every case (place changed, condition, value) of every function listed is an obligation; values carried round loops that have no closed form are treated as unknown and are not decided.")

prop("C23", 'Satisfied dependences, directions, parallel loops and bands are those defined',
     "The facts derived from a schedule follow from it as defined, for every program: a dependence is satisfied at a level exactly when its component there is at least one for all instances, is recorded with that level and counted; its direction at a level is zero, plus, minus or star by the emptiness of the sets of its components' signs; a level is a loop, scalar or tile-space loop by the rows of the statements; a loop is parallel when no unsatisfied non-RAR dependence between its statements has a component there, vectorizable, innermost, dominated or spatially reused as defined; loops, bands, strongly connected components, their order, the vertices and edges of the dependence graph, fusion of statements and components, and the number of independent hyperplanes are computed as defined.",
     ['programs', 'schedules'], 'every program and every schedule',
     'The test programs have few levels, statements and kinds of dependences; a wrong condition changes a flag that their output does not depend on.',
     ['lib/pluto.c', 'lib/framework.cpp', 'lib/polyloop.c', 'lib/ddg.c', 'lib/framework-dfp.c'],
     [('satisfaction and direction', 'lib/pluto.c: dep_satisfaction_update, pluto_compute_dep_satisfaction, pluto_compute_dep_directions; lib/framework.cpp: dep_satisfaction_test, get_dep_direction'), ('loops and bands', 'lib/polyloop.c'), ('dependence graph', 'lib/ddg.c; lib/pluto.c: ddg_create, ddg_update')],
     "equality of normal forms: gated value numbering over LLVM IR (loops as index sets, helpers entered, conditions as intervals) against a reviewed specification of every function's effects",
     TB + "Every case (place changed, condition, value) of every function listed is an obligation; values carried round loops that have no closed form are treated as unknown and are not decided.")

prop("C24", 'Tiling and the transformations after scheduling do what they say',
     "Given a schedule, the passes that follow change it as documented, for every band, tile size and option: tiling a band adds for each statement and loop of the band a tile dimension constrained to tile_size * t <= h <= tile_size * t + tile_size - 1 (h the hyperplane), at the band's depth and in its order, the default or given tile sizes being used and statements with shorter schedules padded; a tile schedule adds to the first dimension of the band the others that are needed for a wavefront; loops are moved innermost within tiles only from where this is allowed; bands per statement and their fusion, innermost tilable bands, wavefront parallelism, unroll-jam and register-tile marks, and the accesses counted for tile sizes are determined as defined; the passes of pluto_schedule_prog run under exactly their options.",
     ['programs', 'configurations'], 'every schedule, band, tile size and option',
     'The tests tile two programs with default sizes; other depths, several bands and options are not run.',
     ['lib/tile.c', 'lib/transforms.c', 'lib/post_transform.c', 'lib/plutolib.c', 'lib/tile_size_selection_model.cpp'],
     [('tiling', 'lib/tile.c: pluto_tile_band, pluto_tile_scattering_dims, pluto_create_tile_schedule_band'), ('after tiling', 'lib/post_transform.c'), ('passes', 'lib/plutolib.c: pluto_schedule_prog')],
     "equality of normal forms: gated value numbering over LLVM IR (loops as index sets, helpers entered, conditions as intervals) against a reviewed specification of every function's effects",
     TB + "Every case (place changed, condition, value) of every function listed is an obligation; values carried round loops that have no closed form are treated as unknown and are not decided.")

prop("C25", 'What passes between isl and the program keeps its meaning',
     "The conversions between isl objects and the program's own structures carry every coefficient, dimension, parameter, constant and name to its place, for all spaces: equalities and inequalities of basic sets and maps (columns in the order in, out, parameters, constant, existentially quantified dimensions last), constraints back to isl, affine functions, access functions and their arrays, statements with their domain, identity schedule, iterator and parameter names, dependences with their statements, accesses, kind and polyhedra, schedules and remappings back to isl with the statements' names; sets intersected, united, projected and minimised through isl are those of the operands; values that do not fit are reported.",
     ['inputs', 'programs'], 'all sets, maps, statements and dependences',
     'The tests pass a few small spaces; a swapped column, a lost divisor or a wrong kind needs spaces with different numbers of dimensions to show.',
     ['lib/constraints_isl.c', 'lib/isl_support.c', 'lib/program.cpp', 'lib/plutolib.c'],
     [('constraints and functions', 'lib/constraints_isl.c, lib/isl_support.c'), ('statements and dependences', 'lib/plutolib.c: extract_stmt, normalize_domain_schedule, pluto_schedules_to_isl; lib/program.cpp: basic_map_extract_dep, compute_deps_isl, isl_map_extract_access_func')],
     "equality of normal forms: gated value numbering over LLVM IR (loops as index sets, helpers entered, conditions as intervals) against a reviewed specification of every function's effects",
     TB + "Every case (place changed, condition, value) of every function listed is an obligation; values carried round loops that have no closed form are treated as unknown and are not decided.")

prop("C26", 'Fusion, distribution and permutability decisions follow their definitions',
     'With the polyhedral clustering framework (dfp), which statements are fused and which dimensions are taken follows the conflict graph as defined, for every program and fusion option: edges are entered for must-distribute and permute-preventing pairs, a colour is valid for a dimension when no neighbour has it (and, for parallel dimensions, no parallelism-preventing one), discarded vertices are not used, per-component colours, offsets and properties correspond to those of their statements and back, convex successors, colourable dimensions and dimensions to be skewed are chosen as defined, components are cut exactly where required and the dependences satisfied updated, and the dimensions are scaled and shifted within the constraints of their component.',
     ['programs', 'configurations'], 'every program, fusion and clustering option',
     'No test uses this framework with several components and typed fusion.',
     ['lib/framework-dfp.c', 'lib/pluto.c'],
     [('conflict graph and colouring', 'lib/framework-dfp.c: add_permute_preventing_edges, add_must_distribute_edges, is_valid_colour, get_next_min_vertex, colour_convex_successors, rebuild_scc_cluster_fcg'), ('cuts', 'lib/framework-dfp.c: cut_around_scc, cut_from_predecessor; lib/pluto.c: cut_smart, cut_conservative'), ('scaling and skewing', 'lib/framework-dfp.c: scale_shift_permutations, get_dep_satisfaction_dims, dims_to_be_skewed, constant_deps_in_scc')],
     "equality of normal forms: gated value numbering over LLVM IR (loops as index sets, helpers entered, conditions as intervals) against a reviewed specification of every function's effects",
     TB + "Every case (place changed, condition, value) of every function listed is an obligation; values carried round loops that have no closed form are treated as unknown and are not decided.")

na("N01", "The computed schedule respects every dependence",
   "For every program, whenever a schedule is returned, every dependence source instance is executed before its target "
   "instance under that schedule, after all tiling, skewing and intra-tile reordering.",
   ["inputs", "programs", "configurations"], "every program and option combination",
   "The tests compare six schedules with expected text.",
   ["lib/pluto.c", "lib/framework.cpp", "lib/tile.c"], [("Farkas-lemma legality constraints", "lib/framework.cpp: compute_permutability_constraints_dep")],
   "Legality depends on the numeric content of the constraint systems and on the ILP solutions; no dataflow or typestate argument "
   "bounds those. The structural preconditions that are decidable from the source are claimed separately.")
na("N02", "The schedule is optimal for the cost function",
   "Among the legal schedules the one returned minimises the dependence-distance bound lexicographically.",
   ["inputs", "programs"], "every program", "Optimality cannot be observed from sample outputs.",
   ["lib/framework.cpp", "lib/constraints_isl.c"], [("lexmin of the bounding function coefficients", "lib/framework.cpp: get_program_constraints, pluto_constraints_lexmin")],
   "A statement about the numeric optimum of an ILP; not decidable from the source text.")
na("N03", "Set operations on constraint systems compute the exact integer sets",
   "Intersection, union, difference, projection and emptiness agree with the set semantics of the systems for all inputs.",
   ["inputs"], "every pair of systems", "Unit tests sample a few systems.",
   ["lib/constraints.c", "lib/constraints_isl.c"], [("Fourier-Motzkin elimination, Gaussian elimination, isl", "lib/constraints.c")],
   "Numerical correctness of elimination over unbounded coefficient values needs a proof about arithmetic, not a source-level dataflow fact.")
