FE = ['src/method_facet_enumeration.cpp', 'src/method_double_description.cpp', 'src/algorithm_fourier_motzkin_elimination.cpp', 'src/algorithm_matrix_operations.cpp', 'src/algorithm_row_operations.cpp']
VE = ['src/method_vertex_enumeration.cpp', 'src/method_double_description.cpp', 'src/algorithm_fourier_motzkin_elimination.cpp', 'src/input.cpp']
AD = ['src/method_adjacency_decomposition.cpp', 'src/method_adjacency_decomposition_implementation.cpp', 'src/algorithm_rotation.cpp', 'src/list.cpp', 'src/job_manager.cpp']

prop('C01', 'Facet enumeration by double description is exact',
     'For every set of vertices and rays with integral or rational coordinates, "-m dd" prints equations that describe exactly the affine hull (without redundant ones) and one inequality for every facet of the '
     'polyhedron, each facet exactly once (modulo the equations) and nothing that is not a facet. This holds whenever all numbers that occur are representable in the selected integer type.',
     ['inputs', 'configurations'], 'all finite vertex / ray sets (duplicates, redundant points, lower-dimensional, unbounded, more rows than machine words have bits), all integer types',
     'The unit tests call single algorithms on a few constant matrices; none runs a conversion end to end, and facet lists of degenerate or unbounded inputs are never compared with an independent result.',
     FE, [('Fourier-Motzkin elimination with a combinatorial redundancy criterion', 'src/algorithm_fourier_motzkin_elimination.cpp'), ('affine hull by Gaussian elimination, projection and back substitution', 'src/algorithm_matrix_operations.cpp, src/method_double_description.cpp')],
     'property-based testing of the built program against an exact reference implementation', TRUST, ['stdout of panda'])

prop('C02', 'Vertex enumeration by double description is exact',
     'For every system of inequalities and equations, "-m dd" prints every vertex and every extreme ray of its solution set exactly once and nothing else; for solution sets without vertices what it prints is '
     'exactly one representative per minimal generator modulo the lineality space, and no vertex is printed for an infeasible system. This holds whenever all numbers that occur are representable in the selected integer type.',
     ['inputs', 'configurations'], 'all systems (bounded, unbounded, infeasible, redundant, degenerate, with equations, zero rows), all integer types',
     'No test runs a vertex enumeration; rational vertices, rays, equations and infeasible systems are not exercised at all.',
     VE, [('elimination of the homogenized system', 'src/method_double_description.cpp'), ('split in vertices and rays, reduction of fractions', 'src/method_vertex_enumeration.cpp')],
     'property-based testing of the built program against an exact reference implementation', TRUST, ['stdout of panda'])

prop('C03', 'Adjacency decomposition is exact for any number of threads',
     'For every input, "-m ad" prints exactly the facets (respectively vertices and rays) of the polyhedron, each once, independent of the number of threads and of how they are scheduled, and it terminates. ',
     ['inputs', 'schedules', 'configurations'], 'all V- and H-representations, 1..8 (and more) threads, the schedules that occur; with thread timing perturbed by the operating system',
     'No test runs the adjacency decomposition; the tests of the list and of the threads are single, fixed histories.',
     AD, [('rotation of a facet about each of its ridges', 'src/algorithm_rotation.cpp, src/method_adjacency_decomposition_implementation.cpp'), ('work list shared by the threads', 'src/list.cpp, src/job_manager.cpp')],
     'property-based testing of the built program against an exact reference implementation, with random thread counts', TRUST, ['stdout of panda'])

prop('C04', 'The result does not depend on how the polyhedron is presented or computed',
     'The printed set of rows (modulo the equations) is the same for every order and multiplicity of the input rows, every positive scaling and redundant addition, every order of the sections, every sorting option, '
     'every sufficient integer type, every number of threads and both methods.',
     ['inputs', 'configurations'], 'pairs of presentations and configurations of one polyhedron, also of polyhedra larger than the reference model handles',
     'The tests never compare two runs of the program; sorting options, thread counts and integer types are only tested for being recognized.',
     FE + VE + AD + ['src/integer_type_selection.cpp'], [('sorting of the input', 'src/input.cpp, src/input_order.h'), ('normalization of rows', 'src/algorithm_row_operations.cpp')],
     'metamorphic property-based testing (two presentations, one result)', TRUST, ['stdout of panda'])

prop('C05', 'With symmetry maps exactly one representative per class is printed',
     'If maps generating a group of symmetries are declared, the result contains for every class (orbit) of facets, respectively of vertices and rays, exactly one representative, and nothing else, '
     'with both methods, for maps given in terms of the declared names and for polyhedra of lower dimension.',
     ['inputs', 'configurations'], 'polyhedra closed under generated affine symmetry groups (permutations, reflections with offset, conjugates by shears)',
     'The tests normalize a few constant maps and compute the classes of single rows; the result for a symmetric polyhedron is never checked.',
     ['src/algorithm_classes.cpp', 'src/algorithm_map_operations.cpp', 'src/input_map.cpp'] + AD, [('orbit computation', 'src/algorithm_classes.cpp'), ('normalization of maps with respect to the equations', 'src/algorithm_map_operations.cpp')],
     'property-based testing with constructed symmetries against an exact reference implementation with explicit orbits', TRUST, ['stdout of panda'])

prop('C06', 'Reduced input stands for all of its images under the maps',
     'Reduced vertices, reduced rays and reduced inequalities together with maps give the same result as the complete list of all images under the group generated by the maps, whichever representative of a class is given, '
     'also if representatives are given modulo the equations.',
     ['inputs', 'configurations'], 'the symmetric polyhedra of C05 with arbitrary choices of representatives',
     'No test reads a file with reduced sections.',
     ['src/input.cpp', 'src/algorithm_classes.cpp', 'src/algorithm_map_operations.cpp'], [('expansion of the reduced rows', 'src/input.cpp'), ('orbit computation', 'src/algorithm_classes.cpp')],
     'property-based testing with constructed symmetries against an exact reference implementation with explicit orbits', TRUST, ['stdout of panda'])

INPUT = ['src/input.cpp', 'src/input_vertex.cpp', 'src/input_constraint.cpp', 'src/input_constraint_named_variables.cpp', 'src/input_constraint_unnamed_variables.cpp', 'src/input_map.cpp', 'src/input_names.cpp',
         'src/input_dimension.cpp', 'src/input_keywords.cpp', 'src/input_detection.cpp', 'src/input_common.cpp', 'src/istream_peek_line.cpp']

prop('C09', 'Integer types: exact, or a loud failure',
     'With "-i inf" the printed result is the exact one for inputs of any size, or panda fails if a number of the result cannot be printed. With "-i safe" every printed row is correct and an overflow ends the program '
     'with a failure; every other type gives the exact result if all numbers that occur are representable in it.',
     ['inputs', 'configurations'], 'numbers from 0 to 2^31-1 and their minors, all six settings of the integer type',
     'The tests multiply a few constants; whether an overflow inside of a conversion is noticed, or a large result silently truncated while printing, depends on the whole conversion.',
     ['src/big_integer_arithmetics.cpp', 'src/safe_integer_arithmetics.tpp', 'src/cast.cpp', 'src/integer_type_selection.tpp', 'src/input_vertex.cpp'],
     [('arbitrary precision integer', 'src/big_integer_arithmetics.cpp'), ('overflow detection', 'src/safe_integer_arithmetics.tpp'), ('conversion for printing', 'src/cast.cpp')],
     'differential property-based testing of the integer types against an exact reference implementation', TRUST, ['stdout and exit status of panda'])

prop('C10', 'Equivalent spellings of an input give the same result',
     'All documented spellings of the same problem have the same meaning: every keyword variant, DOS and Unix line ends, blank lines, extra blanks and tabs, identifiers in parentheses, fractions, END, explicit dimension, '
     'declared names of any form, <=, >=, = and ==, any order, sign and repetition of terms, and any admissible order of the sections.',
     ['inputs'], 'random combinations of all kinds of spelling for random polyhedra with and without maps',
     'The parser is stateful and shared by all sections: the tests read single lines in one spelling each; the combinations (a keyword after blank lines with DOS line ends, names that are prefixes of each other, ...) are unbounded.',
     INPUT, [('sections and keywords', 'src/input.cpp, src/input_keywords.cpp'), ('constraints with names', 'src/input_constraint_named_variables.cpp'), ('dry run detecting the mode', 'src/input_detection.cpp')],
     'metamorphic property-based testing: random rendering of one problem, result compared with an exact reference implementation', TRUST, ['stdout of panda'])

prop('C11', 'Malformed input is rejected and never misread',
     'An input that is not well-formed (wrong lengths, tokens that are not numbers, numbers out of range, unknown or repeated names, misplaced signs, missing or repeated relations, contradicting dimensions, maps without exactly '
     'one image per name, missing sections) is rejected with a message on stderr, a non-zero exit status and no result on stdout.',
     ['inputs'], 'well-formed inputs with one of about fifty kinds of errors at any place',
     'The tests check a handful of malformed lines; silently dropping the rest of a line or of a section gives a plausible, wrong result.',
     INPUT + ['src/input_consistency.cpp', 'src/input_validity.cpp'], [('rows', 'src/input_vertex.cpp, src/input_constraint.cpp'), ('consistency of dimensions', 'src/input_consistency.cpp')],
     'property-based testing: mutation of well-formed inputs, rejection required', TRUST, ['exit status, stdout and stderr of panda'])

prop('C12', '--check accepts exactly the maps that preserve the input',
     'With --check, panda rejects a problem if some declared map does not permute its vertices and rays (its inequalities), compared as a set of rows up to positive multiples, and otherwise gives the same result as without --check.',
     ['inputs', 'configurations'], 'symmetric problems with and without a defect in one row or one map',
     'No test runs the check.',
     ['src/input_validity.cpp', 'src/algorithm_map_operations.cpp', 'src/input.cpp'], [('check of the maps', 'src/input_validity.cpp')],
     'property-based testing with constructed symmetric and almost symmetric problems; oracle: direct computation of the images', TRUST, ['exit status and stdout of panda'])

prop('C14', 'Command line options mean what the help says in every spelling',
     'Every combination, order and spelling of the options (-m dd, -m=dd, --method=double-description, ...) and every position of the file name selects exactly the described behaviour; "-s X" is the same as sorting the file. '
     'Invalid or missing parameters are rejected before any calculation, and requests for help or the version never start one.',
     ['inputs', 'configurations'], 'random combinations of all options',
     'The tests only cover the detection of the integer type and of the number of threads for a few constant argument vectors.',
     ['src/main.cpp', 'src/input_method.cpp', 'src/integer_type_detection.cpp', 'src/concurrency.cpp', 'src/help.cpp', 'src/position_guarded_file.cpp', 'src/input.cpp'],
     [('integer type', 'src/integer_type_detection.cpp'), ('method', 'src/input_method.cpp'), ('threads', 'src/concurrency.cpp'), ('sorting', 'src/input.cpp')],
     'property-based testing of the command line against a reference implementation; metamorphic relation for sorting', TRUST, ['exit status, stdout and stderr of panda'])

prop('C15', 'The output of a conversion is valid input for the reverse conversion',
     'What panda prints (equations and inequalities, vertices and rays, with or without declared names, reduced to representatives if there are maps) is accepted as input and converting it back gives the same polyhedron: '
     'V to H to V to H and H to V to H to V print the same sets of rows again.',
     ['inputs', 'configurations'], 'pointed polyhedra with at least one facet, many styles of names, symmetric polyhedra with maps',
     'No test feeds printed rows back to the parser; printing (signs, fractions, names) and parsing are tested separately on constants.',
     ['src/algorithm_row_operations.cpp', 'src/method_vertex_enumeration.cpp', 'src/method_facet_enumeration.cpp'] + INPUT, [('printing of named rows and of fractions', 'src/algorithm_row_operations.cpp'), ('parsing', 'src/input.cpp')],
     'property-based testing: round trips through the printed text', TRUST, ['stdout of panda'])

prop('C16', 'Known facets or vertices never change the result',
     'Rows given with --known-data that are facets (vertices, rays) of the polyhedron do not change the set of rows that is printed, however they are written (multiples, modulo equations, other representatives of their class). '
     'With --check, known data that contain an inequality that is not facet-defining or a point that is not extremal are rejected.',
     ['inputs', 'configurations'], 'random subsets of the true result in random spelling, and single invalid rows',
     'No test uses known data.',
     ['src/input.cpp', 'src/input_consistency.cpp', 'src/input_validity.cpp'] + AD, [('known data as first jobs', 'src/method_adjacency_decomposition_implementation.cpp'), ('validity', 'src/input_validity.cpp')],
     'property-based testing against an exact reference implementation', TRUST, ['exit status and stdout of panda'])

prop('C07', 'Big integers compute like mathematical integers',
     'Objects of type BigInteger behave like integers of unlimited size: every sequence of constructions from builtin integers, + - * / %, compound and self assignments, negation, absolute value, gcd, lcm, comparisons and '
     'conversions gives the exact value (with the rounding and sign conventions of int for / and %) and never depends on how a value was computed.',
     ['histories', 'inputs'], 'programs of operations on values of up to about a thousand bits, concentrated around the limits of words and builtin types',
     'The tests check a dozen constants; carries, borrows, normalization of leading zero words and quotient digit estimates go wrong for single operand patterns only.',
     ['src/big_integer.h', 'src/big_integer.cpp', 'src/big_integer_constructors.cpp', 'src/big_integer_arithmetics.cpp', 'src/big_integer_comparisons.cpp', 'src/cast.cpp'],
     [('arithmetic on words', 'src/big_integer_arithmetics.cpp'), ('comparison', 'src/big_integer_comparisons.cpp')],
     'stateful (model-based) property-based testing: random programs over registers, model: Python integers', TRUST, ['values observed by comparison, conversion and residues'])

prop('C08', 'SafeInteger is exact or throws',
     'Every operation on SafeInteger returns the exact result if it is representable and throws an exception otherwise, leaving its operands unchanged; this includes construction from wider types, negation, division and remainder.',
     ['histories', 'inputs'], 'programs of operations on values concentrated around the limits of the type, their square roots and quotients',
     'The tests check a few overflows by constants; the boundary between the largest exact and the smallest overflowing operands is a curve in two variables.',
     ['src/safe_integer.h', 'src/safe_integer.cpp', 'src/safe_integer_arithmetics.cpp', 'src/safe_integer_arithmetics.tpp', 'src/safe_integer.tpp'],
     [('overflow detection', 'src/safe_integer_arithmetics.tpp')],
     'stateful (model-based) property-based testing: random programs over registers, model: Python integers', TRUST, ['values and exceptions'])

prop('C17', 'Linear algebra on rows and matrices is exact for every integer type',
     'Rank, equations of the linear span, transposition, matrix and row arithmetic, gcd and lcm, normalization modulo equations, distances and the furthest and nearest row are exact for all five integer types whenever '
     'all intermediate results are representable.',
     ['inputs', 'configurations'], 'random dense, sparse and dependent matrices; numbers up to the limits of each type for gcd and lcm',
     'The tests use a few constant matrices of type int.',
     ['src/algorithm_matrix_operations.cpp', 'src/algorithm_row_operations.cpp', 'src/algorithm_integer_operations.cpp', 'src/algorithm_inequality_operations.cpp', 'src/matrix.h', 'src/row.h'],
     [('Gaussian elimination', 'src/algorithm_matrix_operations.cpp'), ('rows', 'src/algorithm_row_operations.cpp')],
     'property-based testing of the algorithms (C++ driver) against exact rational arithmetic', TRUST, ['return values'])

prop('C20', 'Rotation finds exactly the adjacent facets; the heuristic only facets',
     'Rotating a facet about its ridges returns exactly the facets that share a ridge with it, for cones and polyhedra of any dimension and degeneracy. The heuristic that provides the first facets returns only facets, each once, '
     'and at least one if there is one.',
     ['inputs', 'configurations'], 'generated cones with up to about a dozen rows, every facet as starting point, three integer types',
     'No test calls rotation or heuristic; a missing neighbour disappears in the complete result as long as the remaining adjacency graph is connected.',
     AD[:3] + ['src/algorithm_fourier_motzkin_elimination.cpp'], [('rotation', 'src/algorithm_rotation.cpp'), ('heuristic start', 'src/algorithm_fourier_motzkin_elimination.cpp')],
     'property-based testing of the algorithms (C++ driver); oracle: adjacency by the rank of the common generators', TRUST, ['return values'])

prop('C21', 'Orbits, representatives and normalized maps are exact',
     'The class of a row is exactly its orbit under the group generated by the maps, all members of a class have the same representative (which belongs to the class), a list of rows is reduced to one representative per orbit, '
     'and maps normalized with respect to equations act on constraints like the original ones.',
     ['inputs', 'configurations'], 'finite groups of affine maps, points, rays and constraints, with and without equations',
     'The tests compute the class of a few rows under a coordinate permutation.',
     ['src/algorithm_classes.cpp', 'src/algorithm_map_operations.cpp'], [('orbits', 'src/algorithm_classes.cpp'), ('maps', 'src/algorithm_map_operations.cpp')],
     'property-based testing of the algorithms (C++ driver); oracle: explicit orbits in exact arithmetic', TRUST, ['return values'])

prop('C13', 'Adjacency decomposition: right result under every thread schedule',
     'For every interleaving of the worker threads, the reader of known data and the output, and every order in which waiting threads are woken (including spurious wake-ups), "-m ad" terminates without deadlock, '
     'accesses no shared data without synchronization, and prints exactly the facets (vertices, rays, one per class) of the polyhedron.',
     ['schedules', 'inputs', 'configurations'], 'schedules of 1 to 6 threads drawn by a controlled scheduler (random walk and priority-based with random change points, spurious wake-ups), on polyhedra with and without maps and known data',
     'The tests of the list use one thread and a fixed history; a missed wake-up or a check outside of a lock needs a preemption at one specific instruction.',
     ['src/list.cpp', 'src/job_manager.cpp', 'src/joining_thread.cpp', 'src/method_adjacency_decomposition_implementation.cpp', 'src/concurrency.cpp'],
     [('list of jobs with condition variable', 'src/list.cpp'), ('worker threads and known data', 'src/method_adjacency_decomposition_implementation.cpp')],
     'property-based testing over inputs and schedules: the compiled program runs under a controlled scheduler (every memory access is a possible preemption), oracle: reference model; plus ThreadSanitizer runs',
     TRUST + ' Interleavings are explored for sequentially consistent memory; races are searched by ThreadSanitizer.', ['stdout and termination of panda'])

prop('C18', 'Bitsets behave like finite sets',
     'Both bitset classes (fixed and variable number of words) behave like sets of the numbers below their size for every history of set, copy, move, merge, intersection, comparison, subset, emptiness and counting operations, '
     'for every bound at least the largest element.',
     ['histories', 'inputs'], 'histories of operations on five registers, sizes from 1 to 40 words and sizes at and next to multiples of the word length',
     'The tests set a few bits in one-word sets; loops over words and the dispatch between sizes fail only from the second word on.',
     ['src/bitset_fixed_size.h', 'src/bitset_fixed_size.tpp', 'src/bitset_variable_size.h', 'src/bitset_variable_size.cpp'],
     [('words', 'src/bitset_fixed_size.tpp, src/bitset_variable_size.cpp')],
     'stateful (model-based) property-based testing, model: Python sets', 'Generated-input search over histories of up to about a hundred operations; trusts the model (Python sets) and the driver harness/bits.cpp.', ['return values'])

prop('C19', 'No input corrupts memory, hangs the program or fails silently',
     'For every file, known-data file and choice of options, reading and converting causes no invalid memory access and no undefined behavior, ends, and fails with a message if it fails. '
     'What is read does not depend on the kind of line ends or on final blank lines, and data that are read survive writing and reading.',
     ['inputs', 'configurations'], 'mutations of valid inputs and arbitrary bytes; excluded are maps that generate infinite groups, unchecked known data that do not belong to the polyhedron, and numbers beyond the fixed-size integer types',
     'The tests parse a few well-formed snippets; none reads malformed files, and no test runs with sanitizers.',
     INPUT + AD, [('parsing', 'src/input_vertex.cpp, src/input_constraint.cpp'), ('validity', 'src/input_validity.cpp')],
     'property-based testing of a sanitized build with mutated inputs, and coverage-guided fuzzing (libFuzzer) of everything that reads input with differential oracles',
     'Generated-input search; trusts AddressSanitizer and UndefinedBehaviorSanitizer.', ['sanitizer reports, exit status, messages'])

prop('C22', 'The distributed version is exact for any number of processes and delays',
     'Compiled with MPI support and run with any number of processes and threads, panda prints exactly the result of the sequential program, whatever the delays of messages and of the completion of requests that the MPI '
     'standard allows. All processes end, every message is received, and no buffer is used beyond its life time.',
     ['schedules', 'inputs', 'configurations'], 'numbers of processes and threads, delays of messages, moments at which send buffers are read, V- and H-polyhedra with and without maps and known data',
     'No test is compiled with MPI support; buffers that die too early and results without rows need a late completion or a facet without neighbours.',
     ['src/communication.cpp', 'src/job_manager.cpp', 'src/job_manager_proxy.cpp', 'src/message_passing_interface_session.cpp', 'src/list.cpp'],
     [('matrices and rows as messages', 'src/communication.cpp'), ('one request thread per thread of a slave', 'src/job_manager.cpp')],
     'property-based testing of the program compiled with MPI_SUPPORT and AddressSanitizer against a stand-in for MPI that uses the freedom of the standard at random; oracle: reference model',
     TRUST + ' Trusts the stand-in for MPI (harness/fakempi), which implements only the functions that panda uses; no real MPI implementation is run.', ['stdout, termination, sanitizer reports'])

prop('C23', 'Printed rows and conversions between integer types are exact or fail',
     'Every row that is printed (plainly, with names and a relation, or as fractions) denotes exactly the row in memory, for every integer type and every choice of names. Converting rows between integer types preserves every '
     'value; a value that does not fit causes an exception.',
     ['inputs', 'configurations'], 'rows of all integer types, random names and relations, values at the limits and beyond',
     'The tests print a handful of rows with small coefficients; signs, ones, zeros, missing names and values at the limits of the types interact.',
     ['src/algorithm_row_operations.cpp', 'src/algorithm_matrix_operations.cpp', 'src/cast.cpp', 'src/cast.h', 'src/big_integer.cpp', 'src/safe_integer.h'],
     [('rendering of inequalities and fractions', 'src/algorithm_row_operations.cpp'), ('casts', 'src/cast.cpp')],
     'property-based testing of the algorithms (C++ driver); oracle: an independent parser of the text and Python integers', TRUST, ['return values, text'])

prop('C24', 'The shared work list hands out every row exactly once and ends',
     'However threads put and get rows, every row is handed out at most once and printed exactly once, every row reachable from the initial ones is handed out, and all threads get the empty row (and thus end) '
     'once nothing is left and nobody works, but not before. There is no deadlock and no unsynchronized access.',
     ['schedules', 'histories'], 'arbitrary directed graphs as relation between rows and results, 1 to 6 threads, initial rows put before all or all but one of the threads start, rows added asynchronously, schedules with spurious wake-ups',
     'The tests use one thread and a fixed history; termination depends on when the last working thread reports its result relative to the waiting ones.',
     ['src/list.cpp', 'src/list.h', 'src/job_manager.cpp', 'src/joining_thread.cpp'], [('number of working threads and condition variable', 'src/list.cpp')],
     'property-based testing over graphs and schedules under a controlled scheduler; oracle: reachability in the graph; plus ThreadSanitizer runs',
     'Generated-input search over graphs and schedules (sequential consistency; races by ThreadSanitizer). Trusts the scheduler harness/sched.cpp.', ['return values, stdout, termination'])

prop('C25', 'Interrupted runs: all rows printed so far are right and can be resumed from',
     'If a run is killed at any moment, every complete line of its output is a right row of the result (a facet, vertex, ray or valid equation; no row and no class twice). A later run that gets these rows as known data '
     'prints exactly the complete result, also if it is interrupted and resumed repeatedly.',
     ['crash_points', 'inputs', 'configurations'], 'moments at which the output has reached any length, V- and H-polyhedra, with and without maps, all methods, thread counts',
     'No test interrupts a run or uses the output of one run as known data of another one.',
     AD + ['src/method_double_description.cpp', 'src/input.cpp'], [('rows are printed when they are found', 'src/list.cpp'), ('known data', 'src/method_adjacency_decomposition_implementation.cpp')],
     'property-based testing with injected crashes (the system kills the program at a generated length of the output); oracle: reference model', TRUST, ['stdout of panda'])

prop('C26', 'Faults of the environment never lead to a wrong success',
     'Whatever fails - writing the output, reading the input or the known data, an allocation, the creation of a thread - panda reports success only if its complete and exact result has been written; otherwise it ends with a '
     'message and a failure status. It neither hangs nor crashes silently, and short or interrupted reads do not matter.',
     ['fault_sequences', 'inputs', 'configurations'], 'position of the fault: every length of the output, every offset of the files, every allocation, every thread',
     'No test injects faults; a file that cannot be read to its end looks like a shorter file, output that cannot be written is lost without notice.',
     INPUT + AD + ['src/main.cpp'], [('end of file versus read error', 'src/input.cpp, src/input_common.cpp'), ('state of the output stream', 'src/main.cpp')],
     'property-based testing with injected faults (preloaded library, limits of the system); oracle: reference model', TRUST + ' Faults are injected at the interface between panda and the C library (harness/faults.c).', ['exit status, messages, stdout'])

prop('C27', 'Looking ahead never consumes input; token readers consume exactly their token',
     'For every text and position, predicates on the next token, looking at the next line or word, searching for keywords and names, and scanning a position-guarded file give the documented answer and leave the position of '
     'the stream unchanged; readers and skippers consume exactly the token they return, or fail. Strings from files and from memory behave alike.',
     ['inputs', 'histories'], 'arbitrary texts (special characters, keywords and near keywords, arbitrary bytes, ends of lines and of the file anywhere) and histories of operations',
     'The tests call each function on a few strings; combinations with ends of lines and of the file, where streams change their state, are not covered.',
     ['src/input_common.cpp', 'src/input_keywords.cpp', 'src/istream_peek_line.cpp', 'src/position_guarded_file.cpp'],
     [('restoring positions', 'src/istream_peek_line.cpp, src/position_guarded_file.cpp, src/input_common.cpp')],
     'stateful (model-based) property-based testing of the functions (C++ driver)', 'Generated-input search over histories; trusts the model in props/c27.py.', ['return values, positions'])

prop('C28', 'Actions bound to a scope run exactly once on every way out of it',
     'However a scope is left (end, return, exception) and however guards are moved and dismissed, the action of a guard that was not dismissed runs exactly once at the end of the scope of its last owner, in reverse order of '
     'construction; a delayed action runs exactly if its time has passed; a joining thread has ended. Reverse ranges visit every element once, backwards, by reference.',
     ['programs', 'histories'], 'programs of nested scopes with guards, delayed actions, threads, exceptions, returns, moves, dismissals, under a virtual clock',
     'The tests construct one guard each; moves, exceptions and combinations of scopes are not covered.',
     ['src/scope_guard.tpp', 'src/delayed_action.tpp', 'src/joining_thread.cpp', 'src/range.tpp'], [('ownership of the action', 'src/scope_guard.tpp, src/delayed_action.tpp')],
     'property-based testing: random programs, run by a driver and by a model', 'Generated-input search over programs of up to a few dozen statements; trusts the model in props/c28.py.', ['log of the actions'])
