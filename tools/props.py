HOOKS = {"guard": "none", "enable": "no hooks: the checks use the public API and the command line tool", "source_commits": []}
NOT_APPLICABLE = []

def anchors(files, mech, observe, state=None):
    return {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": state or [], "observe_at": observe, "hook_needed": None}

DX = ("Trusts clang 18 with UBSan traps as the C semantics and rustc with overflow checks as the Rust semantics; "
      "complete within the stated size bound and input grid, says nothing beyond them.")

PROPS = []
def P(**k): PROPS.append(k)

P(id="C01",
  title="int expressions keep their C value",
  statement="For every C function over int parameters, the transpiled Rust compiles and returns exactly the value the C function returns on every input on which the C program is defined, whatever integer expression it evaluates: arithmetic, bitwise, shift, comparison, logical, unary plus, minus and not, conditional and (int)-cast operators, nested in any way, with any parenthesisation, over decimal, hex, octal, binary and character constants (every escape). This holds wherever the expression stands: returned, in an initializer, assigned to a variable, array element, struct field or through a pointer, passed as an argument, or controlling an if, while, do or for.",
  quantifier={"over": ["programs", "inputs"], "text": "all int expressions of the listed operators (unsigned, char/short/long arithmetic and floating point excluded), all contexts, all pairs of int arguments for which C defines the result"},
  why_tests_cant="The repository's tests compare generated text for a handful of expressions, or only check that it compiles; precedence, truncation, sign and bool/int conversion errors depend on the combination of operators, context and boundary values.",
  anchors=anchors(["crates/decy-parser/src/extract/expressions.rs", "crates/decy-parser/src/extract/statements.rs", "crates/decy-hir/src/lib.rs", "crates/decy-codegen/src/expr_gen/", "crates/decy-core/src/optimize.rs"],
                  [("operator and literal extraction", "decy-parser extract/expressions.rs"), ("bool/int coercion and parenthesisation", "decy-codegen expr_gen/binary_ops.rs, literals.rs, calls.rs"), ("constant folding", "decy-core optimizer")],
                  ["decy_core::transpile output, compiled with rustc and executed"]),
  technique="exhaustive bounded enumeration of expression trees x contexts x boundary inputs, differential execution of the generated Rust against UBSan-instrumented C",
  level_note=DX)

P(id="C02",
  title="Control flow is preserved",
  statement="For every C function over int values built from if/else chains, while, do-while and for loops with any combination of header parts, switch with breaks, fallthrough, shared labels and a default anywhere, break, continue, return, empty statements and braced or unbraced bodies nested in any way, the transpiled Rust compiles, executes the same statements in the same order as the C function and terminates with the same result on every input on which the C program is defined.",
  quantifier={"over": ["programs", "inputs"], "text": "all statement trees of these forms (goto and case labels inside nested statements excluded), all defined inputs"},
  why_tests_cant="Tests exercise each construct in isolation and mostly check generated text; lost increments on continue, misplaced breaks, dropped branches and wrong fallthrough only show for particular nestings and paths.",
  anchors=anchors(["crates/decy-parser/src/extract/statements.rs", "crates/decy-hir/src/lib.rs", "crates/decy-codegen/src/stmt_gen.rs", "crates/decy-core/src/optimize.rs"],
                  [("statement extraction", "decy-parser extract/statements.rs"), ("loop, switch and branch generation", "decy-codegen stmt_gen.rs"), ("dead-branch removal", "decy-core optimizer")],
                  ["decy_core::transpile output, compiled with rustc and executed"]),
  technique="exhaustive bounded enumeration of statement skeletons, path-recording differential execution of the generated Rust against UBSan-instrumented C",
  level_note=DX)

P(id="C03",
  title="Assignments update exactly the object they name",
  statement="For every sequence of assignments, compound assignments and increments/decrements applied to int locals, parameters, globals, array elements, struct fields (nested, in arrays, or arrays inside structs), and to the targets of int or struct pointer parameters, the transpiled Rust compiles and leaves every one of these objects with the value the C program leaves in it, on every input on which the C program is defined. Constant and computed indices, and right-hand sides that read the assigned object, behave as in C, and an index with side effects is evaluated once.",
  quantifier={"over": ["programs", "inputs", "histories"], "text": "all object kinds x lvalues x assignment operators x right-hand sides x statement positions and all sequences of such operations (pointer arithmetic, unions, aliasing pointers, heap memory and non-int elements excluded)"},
  why_tests_cant="Tests look at the text of single assignments; dropped operators, wrong targets and lost updates show only for particular combinations of lvalue, operator, position and previous writes.",
  anchors=anchors(["crates/decy-parser/src/extract/statements.rs", "crates/decy-hir/src/lib.rs", "crates/decy-codegen/src/stmt_gen.rs", "crates/decy-ownership/src/"],
                  [("assignment extraction", "decy-parser extract/statements.rs"), ("assignment generation", "decy-codegen stmt_gen.rs"), ("pointer parameters to references", "decy-ownership borrow_gen.rs, dataflow.rs")],
                  ["decy_core::transpile output, compiled with rustc and executed; the final state of every object is observed"]),
  technique="exhaustive enumeration of operation histories (length 1 and 2, in all positions) over a catalogue of objects, differential execution against UBSan-instrumented C",
  level_note=DX)

P(id="C04",
  title="Whole translation units keep their meaning",
  statement="For every C translation unit made of functions with int, enum, struct, int-pointer and struct-pointer parameters and int, enum, struct or void results, prototypes, structs and enums in any declaration form (tagged, typedef'd, anonymous, forward-declared), integer typedefs and typedef chains, integer constant macros, and int or struct globals, in any order C allows and with any call graph between the functions (recursive and mutually recursive included), the transpiled Rust compiles, every call reaches the same function with the same arguments, by-value arguments are copies, pointer arguments update the caller's object, every enum constant, macro and typedef has its C value, and the entry function returns the C result on every input on which the C program is defined.",
  quantifier={"over": ["programs", "inputs"], "text": "all call graphs, signatures, declaration forms and item orders of this kind (function-like macros, static locals, initialised struct globals, variables or functions named like Rust keywords and arguments that alias an object whose address is also passed are excluded)"},
  why_tests_cant="Tests transpile one item or a fixed small file and look at the text; wrong signatures, lost definitions, wrong enum values and argument mix-ups depend on the combination and order of items.",
  anchors=anchors(["crates/decy-core/src/lib.rs", "crates/decy-parser/src/extract/types.rs", "crates/decy-codegen/src/func_gen.rs", "crates/decy-codegen/src/transform_gen.rs", "crates/decy-codegen/src/type_gen.rs", "crates/decy-ownership/src/borrow_gen.rs"],
                  [("item collection and deduplication", "decy-core lib.rs transpile_with_includes"), ("signatures", "decy-codegen func_gen.rs, transform_gen.rs"), ("call arguments", "decy-codegen expr_gen/calls.rs"), ("enums, typedefs, structs", "decy-codegen type_gen.rs")],
                  ["decy_core::transpile output, compiled with rustc and executed"]),
  technique="exhaustive bounded enumeration of call graphs, signatures, declaration forms and item orders, differential execution of the generated Rust against UBSan-instrumented C",
  level_note=DX)

P(id="C05",
  title="Programs keep their output and exit status",
  statement="For every C program whose main (with or without parameters, whatever its body) performs any sequence of printf and puts calls on int, double, char and string values, loops, calls to functions that print, and exits by return, exit() or falling off the end of main, the transpiled Rust compiles to a program that writes byte for byte the same standard output and ends with the same exit status: every conversion (%d %i %u %x %X %o %c %s %f %% with width, zero padding, left alignment, sign and precision), every argument order and every literal text (escapes, percent signs, braces, quotes, non-ASCII characters) included.",
  quantifier={"over": ["programs", "histories"], "text": "all programs of this kind (%e, %g, the space flag, precision on integer conversions, putchar, octal and \\a escapes and other library calls excluded)"},
  why_tests_cant="The repository's tests check a few format strings textually; argument mix-ups, brace escaping, padding and exit status errors depend on the particular combination of conversions, texts and exit paths.",
  anchors=anchors(["crates/decy-codegen/src/expr_gen/calls.rs", "crates/decy-codegen/src/expr_gen/", "crates/decy-codegen/src/func_gen.rs", "crates/decy-codegen/src/stmt_gen.rs", "crates/decy/src/main.rs"],
                  [("printf conversion", "decy-codegen expr_gen"), ("main and exit codes", "decy-codegen func_gen.rs, stmt_gen.rs"), ("command line transpile", "decy main.rs")],
                  ["stdout bytes and exit status of the program built from `decy transpile` output"]),
  technique="exhaustive enumeration of format strings, argument tuples, literal texts, main forms and effect sequences; differential execution of whole programs against clang-built C",
  level_note="Trusts clang/glibc printf as the reference; complete within the listed conversion, text and sequence bounds.")

P(id="C06",
  title="No unsafe code for safe C",
  statement="For every C program of the fragments of C01 to C04 that has no mutable global variable, the generated Rust contains no unsafe block, function, impl or trait, no raw pointer type, no mutable static and no extern block (the errno shim apart).",
  quantifier={"over": ["programs"], "text": "all programs of these fragments without globals"},
  why_tests_cant="Tests assert the absence of unsafe for fixed snippets; whether a combination of pointers, arrays, structs and loops makes the generator fall back to raw pointers depends on the program.",
  anchors=anchors(["crates/decy-codegen/src/", "crates/decy-ownership/src/", "crates/decy-verify/src/lib.rs"],
                  [("pointer parameters to references and slices", "decy-ownership"), ("unsafe emission", "decy-codegen stmt_gen.rs, expr_gen/"), ("audit", "decy-verify audit_rust_code")],
                  ["decy_core::transpile output, parsed with syn"]),
  technique="exhaustive enumeration of the C01-C04 programs; each output is parsed and every item, block and macro body is searched for unsafe",
  level_note="Syntactic, complete for the enumerated programs.")

P(id="C07",
  title="Transpilation is a function of its input",
  statement="Transpiling the same C input always gives byte for byte the same Rust: on every repetition in one process, in any number of concurrent threads, in any process whatever its hash seeds, in any order among other inputs, and through every entry point that promises plain transpilation (library transpile, transpile with includes, traced transpile, file and project transpile, the command line with output to stdout or a file).",
  quantifier={"over": ["programs", "schedules", "histories"], "text": "all inputs, repetitions, threads, processes and entry points"},
  why_tests_cant="Iteration order of hash maps differs per map instance and process, so an order dependence passes any single-run test.",
  anchors=anchors(["crates/decy-core/src/lib.rs", "crates/decy-codegen/src/", "crates/decy-ownership/src/", "crates/decy/src/main.rs"],
                  [("item collection and ordering", "decy-core lib.rs"), ("name tables and contexts", "decy-codegen"), ("entry points", "decy-core lib.rs, decy main.rs")],
                  ["bytes returned or written by every entry point"]),
  technique="enumeration of programs x repetitions x threads x processes x entry points; all results of one input must be identical",
  level_note="Hash seeds are enumerated through repeated map constructions and fresh processes (units with many items of each kind make an order dependence show with certainty for practical purposes); thread schedules are those the OS gives, decy shares no state between threads.")

P(id="C08",
  title="Every input is answered",
  statement="For every input text, well-formed C, malformed or not C at all, decy's transpilation terminates and answers with Rust or with an error: it never panics, aborts, overflows the stack or hangs.",
  quantifier={"over": ["inputs"], "text": "all input texts (nesting deeper than clang itself accepts and megabyte inputs excluded)"},
  why_tests_cant="Crashes hide in combinations of constructs nobody wrote a test for; the tests contain a fixed list of malformed inputs.",
  anchors=anchors(["crates/decy-parser/src/", "crates/decy-hir/src/", "crates/decy-codegen/src/", "crates/decy-core/src/lib.rs", "crates/decy-ownership/src/"],
                  [("AST extraction by libclang visitors", "decy-parser extract/"), ("conversion and generation", "decy-hir, decy-codegen"), ("diagnostics", "decy-parser diagnostic.rs")],
                  ["the answer (or death) of a worker process given the input"]),
  technique="exhaustive enumeration of token sequences, mutations (every single token deletion, duplication, swap and truncation of a corpus) and odd constructs, judged in worker processes with a time limit",
  level_note="Complete for the enumerated token alphabets, lengths and mutations.")

P(id="C09",
  title="The optimizer changes no behaviour",
  statement="For every HIR function, optimize_function returns a function with the same name, signature and observable behaviour: on every input on which the original is defined, the optimized function makes the same calls with the same arguments in the same order and returns the same value of the same type, whatever constants, dead branches, temporaries, shadowing and conversions it contains; it never reads an undeclared variable, never adds undefined behaviour, and optimizing twice changes nothing more (but where constant branches nest deeper than its documented number of passes).",
  quantifier={"over": ["programs", "inputs"], "text": "all HIR functions over int, unsigned, char, bool, float and double locals with calls, branches, loops, switch and blocks, all inputs"},
  why_tests_cant="Optimizer tests check a few rewrites; a wrong fold, a lost side effect or a removed temporary shows only for particular operator, constant, type and position combinations.",
  anchors=anchors(["crates/decy-core/src/optimize.rs"],
                  [("constant folding", "decy-core optimize.rs"), ("dead branch removal", "decy-core optimize.rs"), ("temporary elimination", "decy-core optimize.rs")],
                  ["the HirFunction returned by decy_core::optimize::optimize_function"]),
  technique="exhaustive bounded enumeration of HIR functions; each is executed before and after optimization by a reference interpreter on all inputs of a grid",
  level_note="Trusts the reference interpreter of HIR (C semantics, undefined inputs dropped); complete within the enumerated forms and grid.")

P(id="C10",
  title="The cache never answers with anything stale",
  statement="For every history of editing, deleting and re-creating source and header files, transpiling, inserting, saving, reloading and clearing, the transpilation cache answers a lookup exactly when an entry for that file was inserted and neither the file nor any header it includes, directly or through other headers, differs in content from that moment, and then with exactly the inserted result; its statistics count every lookup as a hit or a miss. A saved cache, reloaded, answers like the one that was saved; a missing or truncated cache file never yields wrong answers or a crash.",
  quantifier={"over": ["histories", "crash_points"], "text": "all operation histories over all include structures, and all truncated cache files"},
  why_tests_cant="The tests follow one or two fixed histories (insert then get, edit then get); staleness depends on which file of the include structure changed, in which order, between which operations.",
  anchors=anchors(["crates/decy-core/src/lib.rs"],
                  [("TranspilationCache insert/get/save/load/clear", "decy-core lib.rs"), ("dependency hashes", "decy-core lib.rs collect_dependencies")],
                  ["results of TranspilationCache::get and statistics, compared with the model"]),
  technique="explicit-state exploration of operation histories of the real cache on real files, each step compared with a reference model; all truncations of the saved file",
  level_note="Complete for 3 include structures up to the stated history depth; files have up to 3 versions of equal length.")

P(id="C11",
  title="No crash or write failure leaves a broken project",
  statement="Whatever point transpile-project is killed at, and whichever of its file operations fails or is cut short, the sources stay untouched, no successful exit is reported for a run whose outputs are not complete and right, and a following undisturbed run succeeds and leaves exactly the outputs of a clean run.",
  quantifier={"over": ["crash_points", "histories"], "text": "all points between and inside file operations, all failing operations, from every state of project, outputs and cache"},
  why_tests_cant="No test interrupts a run or fails a write; the half-written states exist only between two system calls.",
  anchors=anchors(["crates/decy/src/main.rs", "crates/decy-core/src/lib.rs"],
                  [("project run", "decy main.rs transpile_project"), ("cache save", "decy-core lib.rs TranspilationCache::save")],
                  ["the file tree after the killed or failed run, and after the following run"]),
  technique="crash-point and fault enumeration: the real binary runs under a shim that kills it before, inside or after, or fails, the n-th file-changing call, for every n, from every base state",
  level_note="Crash model: process death and failing or short writes (no power-loss reordering of completed writes).")

P(id="C12",
  title="Incremental project runs equal clean runs",
  statement="For every history of edits (to sources, headers, outputs and the cache file) and runs of transpile-project (cached, uncached, dry, into several output directories), each run succeeds exactly when a clean run on the present sources would, and then leaves, for every source file, exactly the Rust file a clean run leaves, which is what transpiling that file alone gives; it never changes a source or any file outside the output and cache directories, and a dry run changes nothing.",
  quantifier={"over": ["histories"], "text": "all histories of edits and runs (leftover outputs of deleted sources and two sources mapping to one output name excluded)"},
  why_tests_cant="Whether a stale result is reused depends on the whole history of edits, runs and cache states; tests run the command once or twice.",
  anchors=anchors(["crates/decy/src/main.rs", "crates/decy-core/src/lib.rs"],
                  [("project run with cache", "decy main.rs transpile_project"), ("cache validity", "decy-core lib.rs TranspilationCache")],
                  ["exit status and complete file tree after each run of the real binary"]),
  technique="breadth-first explicit-state search over file trees, transitions are edits and runs of the real binary; each run judged against a clean run",
  level_note="Complete to the stated depth over one project shape with 2 sources, 2 headers.")

P(id="C13",
  title="The dependency graph orders every project rightly",
  statement="For every set of files and every include relation between them, the dependency graph built through the API or from the files contains exactly the files and the include edges of the project, however the includes are spelled (spacing, ./, ../, comments after them, system includes aside); its build order lists every file once, after all files it includes, exists exactly when the relation has no cycle, and check-project accepts exactly the projects without circular includes.",
  quantifier={"over": ["inputs", "programs"], "text": "all relations over files, all insertion orders and include spellings"},
  why_tests_cant="Tests build a chain, a diamond and a two-cycle; ordering and cycle errors depend on the shape of the graph and the insertion order.",
  anchors=anchors(["crates/decy-core/src/lib.rs", "crates/decy/src/main.rs"],
                  [("DependencyGraph", "decy-core lib.rs"), ("check-project", "decy main.rs")],
                  ["DependencyGraph queries and topological_sort, exit status of check-project"]),
  technique="exhaustive enumeration of all digraphs up to 4 nodes x insertion orders against a reference closure, and of all 3-file include relations x spellings x layouts on real files",
  level_note="Complete for these sizes.")

P(id="C14",
  title="Includes mean what the C preprocessor makes of them",
  statement="For every project of a source file and local headers that include one another in any pattern (shared, nested, circular), guarded by include guards in any usual form or #pragma once, in any directories and however the include path is spelled, transpiling the source file gives Rust that compiles, declares each struct, enum, function and macro once and computes what the C compiler's preprocessing and compilation of the same files compute; a missing header is an error.",
  quantifier={"over": ["programs", "inputs"], "text": "all include relations of guarded headers, all guard forms, layouts and spellings (other conditional compilation around includes and headers included repeatedly without guards excluded)"},
  why_tests_cant="Tests include one or two headers from one directory; duplicated or lost declarations depend on which header is reached twice, by which path and spelling.",
  anchors=anchors(["crates/decy-core/src/lib.rs"],
                  [("include resolution and once-only processing", "decy-core lib.rs preprocess_includes")],
                  ["decy_core::transpile_file output, compiled with rustc and executed, against clang"]),
  technique="exhaustive enumeration of include relations x guards x layouts x spellings, differential execution against clang",
  level_note=DX)

P(id="C15",
  title="Model version histories stay consistent",
  statement="For every history of operations on a ModelVersionManager (registering versions of any quality, rolling back, rolling back to a given version, automatic rollback on degraded quality), the manager keeps a consistent record: a version is accepted exactly when it is newer than the newest registered one, and becomes active exactly when it meets the quality thresholds and is better than the active one or none is active; at most one version is active; versions are listed in order and none is lost, duplicated or mixed up with another's data until the history limit removes the oldest, never the active one; a rollback goes to the most recent version before the active one that is not itself rolled back, is marked with its reason and recorded with both versions; an automatic rollback happens exactly when the measured quality is below the thresholds or more than 5 points of accuracy below the active version's; and an operation that fails changes nothing. A manager written to JSON and read back continues exactly as before. Version numbers compare, bump, print and parse as numbers.",
  quantifier={"over": ["histories"], "text": "all operation histories, all quality classes, all history limits"},
  why_tests_cant="Tests run one or two operations; which version a rollback reaches, and what the history limit removes, depends on the whole sequence of registrations and rollbacks before it.",
  anchors=anchors(["crates/decy-ownership/src/model_versioning.rs"],
                  [("version registration, pruning, rollback", "decy-ownership model_versioning.rs ModelVersionManager")],
                  ["return values and state of ModelVersionManager after each operation, and of a copy that went through JSON"]),
  technique="exhaustive enumeration of operation histories and breadth-first state search on the real manager in lock step with a reference model",
  level_note="Complete to the stated depth; BFS complete for at most 5 versions and 8 quality classes.")

P(id="C16",
  title="The unsafe audit misses nothing and invents nothing",
  statement="For every Rust file that parses, the unsafe audit reports exactly one entry per unsafe block and per unsafe function or method (free, inherent, trait default), wherever it stands: nested in other blocks, closures, loops, arms, nested items, modules or macro arguments. Safe look-alikes (the word in strings, comments, identifiers or raw strings) add nothing. Totals follow from the entries: line counts, density against all lines, the density target and the average confidence. An auditor that is used again gives what a fresh one gives, and `decy audit` reports the same numbers.",
  quantifier={"over": ["programs"], "text": "all nestings of items, expressions and unsafe code (unsafe impls and traits excluded)"},
  why_tests_cant="Tests audit a few files with a block in a function body; whether a visitor reaches a block depends on every syntactic position it can be nested in.",
  anchors=anchors(["crates/decy-verify/src/lib.rs", "crates/decy/src/main.rs"],
                  [("visitor over the syntax tree", "decy-verify lib.rs UnsafeAuditor"), ("audit command", "decy main.rs audit_file")],
                  ["UnsafeAuditReport fields, output of decy audit"]),
  technique="exhaustive enumeration of syntactic nestings whose number of unsafe blocks and functions is known by construction",
  level_note="Complete for the stated contexts and nesting depth.")

P(id="C17",
  title="Lock analysis agrees with what the threads can do",
  statement="For every function body made of mutex lock and unlock calls, accesses to shared variables and other statements in a row, the lock analysis finds exactly the locked regions, attributes exactly the data accessed inside them to their mutex, whatever statement or expression form the access has, reports exactly the accesses to protected data made without the mutex, and counts the unmatched lock operations. For every pair of functions whose interleaving can reach a deadlock over two mutexes a deadlock warning is given, also for locking a held mutex again; functions that take the mutexes in one consistent order get none.",
  quantifier={"over": ["programs", "schedules"], "text": "all straight-line bodies and pairs of bodies, all their interleavings (lock calls inside nested statements, shadowing locals and cycles through three functions excluded)"},
  why_tests_cant="Tests check two hand-written orders; missed deadlocks and missed unprotected accesses depend on which lock operations interleave and on the form of the accessing statement.",
  anchors=anchors(["crates/decy-analyzer/src/lock_analysis.rs", "crates/decy-verify/src/lock_verify.rs"],
                  [("regions, mapping, discipline", "decy-analyzer lock_analysis.rs LockAnalyzer"), ("unprotected accesses and deadlock risk", "decy-verify lock_verify.rs LockDisciplineChecker")],
                  ["results of LockAnalyzer and LockDisciplineChecker"]),
  technique="exhaustive enumeration of lock programs; the deadlock oracle explores all interleavings of each pair explicitly",
  level_note="Complete to the stated body length over 2-3 mutexes and 2 variables.")

P(id="C18",
  title="Differential tests give the right verdict",
  statement="For every pair of programs, the differential test reports a pass exactly when both end the same way (same exit code, or same signal) and write the same bytes to standard output; it records what each program wrote and how it ended, lists one divergence for each thing that differs (standard error only when asked to compare it), gives no verdict when a program does not compile or a compiler is missing, ends programs that run longer than the timeout without calling that a pass, and leaves no files behind. `decy diff-test` exits 0 exactly on a pass.",
  quantifier={"over": ["inputs", "programs"], "text": "all pairs of outputs (any bytes), error outputs and endings"},
  why_tests_cant="Tests compare programs that print a line and exit; the verdict on differing blanks, invalid UTF-8, signals, large output or endless programs is never exercised.",
  anchors=anchors(["crates/decy-verify/src/diff_test.rs", "crates/decy/src/main.rs"],
                  [("compile, run, compare", "decy-verify diff_test.rs"), ("diff-test command", "decy main.rs diff_test_file")],
                  ["DiffTestResult, exit status of decy diff-test, the temporary directory"]),
  technique="exhaustive enumeration of pairs of behaviours through stand-in compilers, with a set replayed through the real gcc and rustc",
  level_note="Complete over the listed outputs and endings.")

P(id="C19",
  title="The compilation check says what rustc says",
  statement="For every text, verify_compilation reports success exactly when rustc accepts it as a Rust 2021 program, or library if it has no main function, and otherwise lists rustc's errors with their codes in order. Any number of checks running at the same time, in threads or processes, on any clock, give the same answers as one at a time. When rustc is missing, dies or the temporary directory cannot be used, the result is an error or a failure, never a success, and no check leaves files behind. `decy transpile --verify` succeeds exactly when the generated code compiles, and otherwise writes no output.",
  quantifier={"over": ["programs", "schedules", "crash_points"], "text": "all texts, all interleavings of concurrent checks, all faults of the compiler"},
  why_tests_cant="Tests check three programs one at a time; mixed-up temporary files need particular interleavings and clock values, and misread error lines particular texts.",
  anchors=anchors(["crates/decy-verify/src/lib.rs", "crates/decy/src/main.rs"],
                  [("compilation check", "decy-verify lib.rs verify_compilation"), ("--verify", "decy main.rs transpile_file")],
                  ["CompilationResult, exit status and output file of decy transpile --verify, the temporary directory"]),
  technique="exhaustive enumeration of item sequences against rustc's JSON diagnostics and of all schedules of concurrent checks under a controlled compiler and clock",
  level_note="Complete for sequences of 2 items (thorough: part of 3) over 26 items and up to 3 (4) concurrent checks.")
P(id="C20",
  title="The standard headers say what C's say",
  statement="For every standard header decy has built in, every function prototype, integer constant macro and arithmetic type agrees with the system's own header, every header's text, alone or together with any others in any order, is valid C, every function is found by its name, counted once and declared by its own header, and any program may include any combination of the headers and still transpiles to Rust that compiles. For every program, int macros from the headers have their C value, and the math functions (acos asin atan atan2 ceil cos exp fabs floor fmod log log10 pow round sin sqrt tan trunc), the character functions (isalnum isalpha isdigit islower isspace isupper tolower toupper), abs and strcmp compute what the C library computes on every argument, wherever the call stands.",
  quantifier={"over": ["inputs", "programs"], "text": "all headers, prototypes, macros and types, all combinations of headers, all arguments of the library functions"},
  why_tests_cant="Tests look for a few names in the injected text; none compares a prototype with the system's or runs a program that calls the functions.",
  anchors=anchors(["crates/decy-stdlib/src/lib.rs", "crates/decy-codegen/src/transform_gen.rs", "crates/decy-core/src/lib.rs"],
                  [("prototype database and injection", "decy-stdlib StdlibPrototypes"), ("library function bodies", "decy-codegen transform_gen.rs")],
                  ["inject_prototypes_for_header, inject_all_prototypes, get_prototype, stdout and exit status of transpiled programs"]),
  technique="exhaustive enumeration of the header facts against the system's headers, and of library calls over an argument grid executed end to end against the C library",
  level_note="Complete for the 24 built-in headers, their ordered pairs, and the stated argument grids; two known findings (wint_t, WEOF) are pinned by the repository's own tests.")

P(id="C21",
  title="Arrays and heap objects keep their contents",
  statement="For every program that keeps ints in an array or heap object (a local, global or static array sized by a literal, macro, enum constant or expression and initialised fully, partly or not; an array member of a struct; a row of a two- or three-dimensional array; memory from malloc or calloc; a heap struct; a linked list built in one function; a local reached through a pointer), every element read, assignment, compound assignment, increment and swap, directly or in a function the array is passed to as an array parameter (also passed on, recursively, or with a second array), acts on exactly the element C's acts on, sizeof gives C's sizes, and freeing the memory ends nothing else.",
  quantifier={"over": ["inputs", "programs", "histories"], "text": "all storage forms, algorithms over the elements, parameter forms and operation sequences (pointer arithmetic, realloc, functions that return heap pointers, and heap scalars excluded)"},
  why_tests_cant="Tests look for fragments of generated text; whether an assignment reaches the array or a copy of it depends on the storage form, the path and the statement together, and only running the program shows it.",
  anchors=anchors(["crates/decy-codegen/src/stmt_gen.rs", "crates/decy-codegen/src/expr_gen", "crates/decy-ownership/src/array_slice.rs", "crates/decy-core/src/lib.rs"],
                  [("array and heap statements", "decy-codegen stmt_gen.rs, expr_gen"), ("array parameters", "decy-ownership array_slice.rs ArrayParameterTransformer")],
                  ["return values of transpiled programs"]),
  technique="exhaustive enumeration of storage forms, algorithms, parameter forms and operation sequences, each executed end to end against the C program on all inputs of a grid",
  level_note="Complete for the listed forms over 4 elements; pairs of operations thinned in the quick tier.")

P(id="C22",
  title="Names mean what C's scope rules say",
  statement="For every program, each use of a variable's name refers to the declaration C's scope rules choose: a parameter, local, loop variable or block-local hides a global or outer local of the same name exactly up to the end of its scope (plain, if, else, loop, switch and for-header scopes), whatever the kinds of the declarations (int, array, struct, static), while other functions go on seeing the global. Locals and parameters may have any C name, including Rust's reserved words and the names of Rust's types, and may share the names of functions, struct tags and fields.",
  quantifier={"over": ["inputs", "programs"], "text": "all subsets of scopes that declare a name, all kinds of declaration, all nestings of two blocks, all spellings (struct tags, functions and globals named like Rust keywords excluded)"},
  why_tests_cant="Tests use distinct names throughout; a lost scope shows only when the same name is declared twice and used again after the inner scope.",
  anchors=anchors(["crates/decy-core/src/shadowing.rs", "crates/decy-core/src/lib.rs", "crates/decy-parser/src/extract/mod.rs", "crates/decy-codegen/src/stmt_gen.rs", "crates/decy-codegen/src/lib.rs"],
                  [("hiding and reserved names", "decy-core shadowing.rs"), ("blocks", "decy-parser extract/mod.rs visit_statement"), ("globals in code generation", "decy-codegen TypeContext")],
                  ["return values of transpiled programs"]),
  technique="exhaustive enumeration of declaration placements and spellings, each executed end to end against the C program on all inputs of a grid",
  level_note="Complete for one name over a global, a function scope and two blocks.")

P(id="C23",
  title="Floating-point computations keep their value",
  statement="For every program computing with float and double, each expression, condition, assignment and call gives exactly the value the C program gives: arithmetic happens in the type C's usual arithmetic conversions choose, values are converted where C converts them (initialisers, assignments, compound assignments, arguments, results, array elements, fields, globals, through pointers) and nowhere else, a number is true when it differs from zero, ++ and -- add one, and literals in every spelling mean the same number.",
  quantifier={"over": ["inputs", "programs"], "text": "all trees of two operators over operands of every numeric type, all expressions of a list in every converting context, all statements and pairs of them (long double, INFINITY/NAN macros and sizeof in floating expressions excluded)"},
  why_tests_cant="Tests look for fragments of generated text; a lost or misplaced conversion changes the value only for operands whose type and magnitude differ, and only running the program shows it.",
  anchors=anchors(["crates/decy-parser/src/extract/expressions.rs", "crates/decy-codegen/src/lib.rs", "crates/decy-codegen/src/expr_gen", "crates/decy-codegen/src/stmt_gen.rs"],
                  [("implicit conversions", "decy-parser extract/expressions.rs extract_float_conversion"), ("literals", "decy-codegen expr_gen/literals.rs"), ("type inference and mixed arithmetic", "decy-codegen TypeContext::infer_expression_type, expr_gen/binary_ops.rs")],
                  ["return values of transpiled programs"]),
  technique="exhaustive enumeration of expressions, contexts and statement sequences, each executed end to end against the C program on all inputs of a grid",
  level_note="Complete for two operators; values compared to 2^-28; pairs of statements thinned in the quick tier.")

P(id="C24",
  title="Initializers give every member the value C gives it",
  statement="For every initializer list and compound literal of arrays and structs, each element and field gets the value C gives it: designators ([i] =, .field =, and chains of them) name the member whatever their order, plain items go on after the last one, a later item overrides an earlier one, braces may be left out for nested arrays and structs, members without an item are zero, and an array without a stated size gets the size its list needs. Truth values count as 0 and 1.",
  quantifier={"over": ["inputs", "programs"], "text": "all sequences of plain and designated items up to the bound, for arrays, structs and aggregates of both (initialised struct globals and strings excluded)"},
  why_tests_cant="Tests initialise members in order; a designator that is ignored shows only when the order differs or a member is skipped, and only in the values.",
  anchors=anchors(["crates/decy-parser/src/extract/expressions.rs", "crates/decy-codegen/src/expr_gen/misc.rs"],
                  [("initializer lists", "decy-parser extract/expressions.rs extract_init_list"), ("literals of arrays and structs", "decy-codegen expr_gen/misc.rs gen_expr_compound_literal")],
                  ["return values of transpiled programs"]),
  technique="exhaustive enumeration of initializer lists, each executed end to end against the C program on all inputs of a grid",
  level_note="Complete for lists of up to 3 (thorough: 4) items over 3 members and up to 3 items over nested aggregates.")

P(id="C25",
  title="The learning loop does what its records say",
  statement="For every history of operations: the queue of samples to label numbers the samples in order of arrival, hands out the most uncertain first (of equals the earlier), keeps at most its capacity by dropping the least uncertain, loses, duplicates or changes nothing else, takes back only labeled samples and reports exact counts, average uncertainty and accuracy, also after being stored and read back; the learner queues exactly the predictions at least as uncertain as its limit. The retraining pipeline trains exactly when there are enough samples, on a split that is the samples in order; it answers insufficient data, training error, quality gate failed, degraded (by how much) or promoted exactly as the configuration, the trained quality and the current model call for; every promoted model is registered under a version newer than all before it and can be rolled back to; the current version, history and success rate follow. The threshold tuner reports for every candidate the exact accuracy, fallback and model use, and chooses a candidate that is best under its criterion.",
  quantifier={"over": ["histories", "inputs"], "text": "all operation histories of the queue and the pipeline, all sets of validation samples, candidate lists and criteria"},
  why_tests_cant="Tests run one or two operations; which version a retrained model gets, and what a full queue drops, depends on the whole sequence of runs, rollbacks and insertions before.",
  anchors=anchors(["crates/decy-ownership/src/active_learning.rs", "crates/decy-ownership/src/retraining_pipeline.rs", "crates/decy-ownership/src/threshold_tuning.rs"],
                  [("queue", "decy-ownership active_learning.rs SampleQueue, ActiveLearner"), ("pipeline", "decy-ownership retraining_pipeline.rs RetrainingPipeline::execute"), ("tuner", "decy-ownership threshold_tuning.rs ThresholdTuner::tune")],
                  ["return values and state after each operation"]),
  technique="exhaustive enumeration of operation histories on the real objects in lock step with reference models",
  level_note="Complete to the stated depth over 3 uncertainties, 7 model qualities and 20 kinds of validation samples.")

P(id="C26",
  title="Counts, rates and retirement decisions follow from the recorded events",
  statement="For every history of recorded events, the compile metrics, the oracle's metrics, the inference error tracker and the usage statistics of fix patterns hold exactly the counts of what was recorded, in total, per error code, per feature and per defect, and every rate, threshold verdict, ranking, suggestion, Prometheus text and markdown report follows from these counts; a failure message counts under the first error code (E and four digits) in it, wherever it stands, or as unknown, and no message makes recording fail; resetting clears everything and storing as JSON loses nothing. A pattern is retired or archived exactly when the policy's usage, failure-rate or supersession rule, in this order, says so, and a sweep counts every pattern once under its reason. Convergence reports add up their tiers.",
  quantifier={"over": ["histories", "inputs"], "text": "all histories of events, all failure messages, all policies, lists of patterns and lists of tiers"},
  why_tests_cant="Tests record two or three events; a counter that is off shows only for particular sequences (reset, stored state, second code, equal rates at a threshold).",
  anchors=anchors(["crates/decy-core/src/metrics.rs", "crates/decy-oracle/src/metrics.rs", "crates/decy-oracle/src/retirement.rs", "crates/decy-ownership/src/error_tracking.rs"],
                  [("compile metrics", "decy-core metrics.rs CompileMetrics, ConvergenceReport"), ("oracle metrics", "decy-oracle metrics.rs OracleMetrics, CIReport"), ("retirement", "decy-oracle retirement.rs"), ("error tracker", "decy-ownership error_tracking.rs ErrorTracker")],
                  ["return values and state after each event, report texts"]),
  technique="exhaustive enumeration of event histories on the real objects in lock step with reference counters",
  level_note="Complete to the stated depth over 2 error codes, 2 features, 3 defects and 32 policies.")
