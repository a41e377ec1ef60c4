#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the lines stay well-formed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Operators give the defined result or error for every operand pair",
 "Every unary and binary operator, applied to any two values of any types, yields exactly the value the language defines (64-bit wrapping integer arithmetic, IEEE double arithmetic, truncating // and %, always-float /, ** of ints exact where the result fits, numeric comparison across int and float, byte-wise string comparison, short-circuit && || ??, string concatenation with ~) or exactly the defined error kind, and never another value, crash or hang. Precedence and associativity of mixed operator expressions are those of the grammar.",
 ["inputs", "programs"], "all operand values (including INT64 extremes, NaN, infinities, signed zero, empty strings) x all operators x all nestings of operators",
 "Tests evaluate a few dozen operand pairs, nearly all small and of matching types; the statement ranges over all pairs and all expression trees.",
 ["interpreter/VM.c", "compiler/parser.c", "compiler/compiler.c", "interpreter/YASL_Object.c"],
 [("binary and unary operator opcodes", "interpreter/VM.c: vm_num_binop, vm_int_binop, vm_fdiv, vm_pow, vm_EQ, DEFINE_COMP, vm_CNCT"),
  ("precedence climbing", "compiler/parser.c: BINOP_L/BINOP_R chain"), ("equality and ordering", "interpreter/YASL_Object.c")],
 ["standard output and exit status of the interpreter"])

prop("C02", "Evaluating an expression at compile time never changes its meaning",
 "An expression made of literals has the same value, or fails with the same error kind at run time, as the same expression with each literal replaced by a variable holding that value; so do conditions, dead branches and loops whose outcome is known while compiling. An error that evaluation would raise is raised only if and when the expression is actually evaluated.",
 ["programs", "inputs"], "all literal expressions over all operators, and all conditions built from them",
 "The tests check a handful of folded expressions against constants; agreement between the two evaluators is a relation over every expression.",
 ["compiler/middleend.c", "compiler/compiler.c", "interpreter/VM.c"],
 [("constant folding", "compiler/middleend.c"), ("dead branch elimination", "compiler/compiler.c: visit_If, visit_While, validate")],
 ["standard output and exit status of two renderings of one program"])

prop("C03", "Control flow runs exactly the selected statements and variables keep identity",
 "In every program, if/elseif/else, while, for, nested blocks, break and continue execute exactly the statements the source selects, in order and the right number of times, and every variable read yields the value last assigned to that variable, whatever other variables were declared, shadowed or left behind by blocks that ended early. Assignment and multiple assignment evaluate each part once, left to right, and an augmented assignment means the assignment of the operator's result.",
 ["programs"], "all programs over nested blocks, loops, early exits, declarations and assignments, with up to 255 live variables and any number of constants",
 "Tests contain a few short loops; slot reuse after early exits, deep nesting and large counts of variables and constants are combinations they do not sample.",
 ["compiler/compiler.c", "compiler/parser.c", "compiler/env.c", "interpreter/VM.c"],
 [("scope slots and jumps", "compiler/compiler.c: enter_scope/exit_scope, visit_While, visit_ForIter, visit_Break, visit_Continue, visit_Decl"), ("local loads and stores", "interpreter/VM.c: O_LLOAD, O_LSTORE, O_MOVEUP_FP")],
 ["standard output of generated programs"])

prop("C04", "Calls bind arguments and results by position, at every depth and arity",
 "Calling a function evaluates the callee and then the arguments left to right exactly once, binds them by position with missing ones undef and extra ones dropped, runs the body in a fresh set of locals, and delivers its results: a call that is the last element of an argument list, return or multiple assignment contributes all its results, anywhere else exactly one (undef if none). The caller's variables and pending temporaries are unchanged by the call, for recursion to any supported depth.",
 ["programs"], "all call graphs, arities, argument and result counts, and positions in which a call may appear",
 "Tests call functions with the declared arity in few contexts; mismatched counts in nested call positions are a product they do not cover.",
 ["interpreter/VM.c", "compiler/compiler.c", "compiler/parser.c"],
 [("frames and result adjustment", "interpreter/VM.c: vm_enterframe_offset, vm_fill_args, vm_exitframe_multi, vm_rm_range"), ("variadic contexts", "compiler/parser.c: parse_var_pack, parse_call, parse_return; compiler/compiler.c: visit_VariadicContext")],
 ["standard output of generated programs"])

prop("C05", "Closures share and keep the variables they capture",
 "A function that uses a variable of an enclosing function or block refers to that variable itself: every closure over it and the enclosing code see each other's assignments while it is in scope, closures created by different executions of the declaration get different variables, and each captured variable stays usable, with its latest value, for as long as any closure over it lives, after the scope has ended by any route.",
 ["programs", "histories"], "all nestings of functions and blocks, capture depths, interleavings of assignment and call before and after the scope ends",
 "Tests use one- and two-level closures whose scope ends by a plain return; capture order, sibling closures and other exits are not sampled.",
 ["interpreter/VM.c", "interpreter/upvalue.c", "interpreter/closure.c", "compiler/env.c", "compiler/compiler.c"],
 [("open captured-variable list", "interpreter/VM.c: add_upvalue, vm_close_all, vm_CCONST"), ("capture resolution", "compiler/env.c: env_add_upval, env_resolve_upval_index"), ("closing return", "compiler/compiler.c: usedinclosure")],
 ["standard output of generated programs"])

prop("C06", "match runs the first arm whose pattern and guard accept, with its bindings",
 "A match statement evaluates its subject once and runs the body of the first arm, in source order, whose pattern accepts the value and whose guard (if any) holds, with every name in the pattern bound to the part of the value it stands for, and runs nothing if no arm accepts. Trying and rejecting an arm, including partly matched nested patterns and alternatives, has no effect on any variable or on later arms.",
 ["programs", "inputs"], "all patterns (literals, types, lists, tables, open-ended, alternatives, bindings, nested) x all values x all guard outcomes",
 "Tests try a few patterns against values that mostly match; rejection part-way through nested patterns with bindings and guards is combinatorial.",
 ["interpreter/VM.c", "compiler/compiler.c", "compiler/parser.c"],
 [("pattern matcher and skip-ahead", "interpreter/VM.c: vm_MATCH_subpattern, vm_ff_subpattern"), ("pattern compilation", "compiler/compiler.c: visit_Match_helper, visit_DeclPattern, visit_AltPattern")],
 ["standard output of generated programs"])

prop("C07", "A list behaves as a mutable sequence under every history of operations",
 "After any sequence of list operations (indexing from either end, assignment, slicing, push, pop, insert, concatenation, copy, clear, reverse, sort, search, count, join, spread, equality), a list holds exactly the elements a plain sequence would hold, every operation returns the result that sequence defines, and invalid indexes or arguments raise the documented error kind and leave the list unchanged. Operations that return a new list never alter their operands.",
 ["histories", "inputs"], "all operation sequences, lengths (across storage growth and shrink), element types and index values",
 "Tests run each method on one or two short lists; the property is about arbitrary histories.",
 ["interpreter/list_methods.c", "data-structures/YASL_List.c", "interpreter/VM.c"],
 [("list methods", "interpreter/list_methods.c"), ("storage", "data-structures/YASL_List.c"), ("slices", "interpreter/VM.c: vm_SLICE_list")],
 ["standard output of generated programs"])

prop("C08", "Strings are immutable byte sequences and string operations are exact",
 "For any strings (any bytes, any length, including strings obtained by slicing, splitting or iterating other strings), every string operation (length, indexing, slicing, iteration, comparison, concatenation, case and class tests, search, count, replace, split, trim, repeat, prefix and suffix tests, numeric parsing) returns exactly what the same operation on the plain byte sequence gives, or raises the documented error kind, and never changes any existing string.",
 ["inputs", "histories"], "all byte strings x all operations x all argument values, on freshly made and derived strings",
 "Tests apply each method to a couple of short literals; derived strings, overlaps, empty arguments and boundary positions are not sampled.",
 ["interpreter/str_methods.c", "data-structures/YASL_String.c", "interpreter/VM.c"],
 [("string methods", "interpreter/str_methods.c"), ("string algorithms and shared substrings", "data-structures/YASL_String.c"), ("slicing and iteration", "interpreter/VM.c: vm_SLICE_str, vm_ITER_1")],
 ["standard output of generated programs"])

prop("C09", "A table is a finite map under every history of insertions and removals",
 "After any history of insertion, overwrite, removal (including assigning undef), clearing, copying and merging, a table maps each key to the value last stored under it and to nothing else, its length is the number of such keys, and its keys, values and iteration list each live entry exactly once. Keys are compared by type and value, mutable values are refused as keys with a type error, and lookups of absent keys give undef.",
 ["histories", "inputs"], "all operation histories, sizes across growth and shrink, and key types",
 "Tests keep tables tiny; growth, shrink, long insert/remove churn and hash collisions need histories of thousands of steps.",
 ["data-structures/YASL_Table.c", "interpreter/table_methods.c", "util/hash_function.c", "util/prime.c"],
 [("open addressing with tombstones and resizing", "data-structures/YASL_Table.c"), ("table methods", "interpreter/table_methods.c")],
 ["standard output of generated programs"])

prop("C10", "Sets are mathematical sets; constructors build exactly their arguments",
 "After any history of add, remove, clear, copy and set-algebra operations, a set contains exactly the members a mathematical set would, each once, with the matching length, membership, equality and inclusion answers, and algebra never alters its operands. The list, table and set constructors of the collections library build exactly the collection of their arguments.",
 ["histories", "inputs"], "all operation histories and member types, sizes across growth and shrink",
 "Tests use sets of a few ints and single operations; churn and combinations of operations are not covered.",
 ["std/yasl-std-collections.c", "data-structures/YASL_Set.c"],
 [("hash set", "data-structures/YASL_Set.c"), ("set operators and methods", "std/yasl-std-collections.c")],
 ["standard output of generated programs"])

prop("C11", "Iteration and comprehensions visit each element once, in order",
 "A for-in loop or comprehension over a list or string visits its elements in index order, over a table its keys each exactly once, runs the body or keeps the element exactly for those that pass the filter, and nests to any supported depth with break, continue, return or an error ending any loop without disturbing the enclosing ones. Iterating over a value of another type is a type error.",
 ["programs", "histories"], "all nestings of loops and comprehensions over all iterable kinds, sizes and exit routes",
 "Tests iterate over short literals one loop deep; exits from inner loops and comprehensions inside loops inside calls are combinations.",
 ["interpreter/VM.c", "compiler/compiler.c"],
 [("loop frames", "interpreter/VM.c: O_INITFOR, vm_ITER_1, O_ENDFOR, O_ENDCOMP, vm_exitframe_multi"), ("loop compilation", "compiler/compiler.c: visit_ForIter, visit_Comp")],
 ["standard output of generated programs"])

prop("C12", "Metatables decide exactly the operations they name",
 "For a value with a metatable, each operator, comparison, indexing, assignment, length, call and stringification for which the metatable has an entry calls that entry once with the operands in source order and yields its result; an operation without an entry has the default behaviour or raises a type error; and reading or replacing a metatable returns exactly the one last set.",
 ["programs", "inputs"], "all overloadable operations x entries present or absent x operand types and orders",
 "Tests define one or two overloads per program on well-behaved operands.",
 ["interpreter/VM.c", "std/yasl-std-mt.c", "interpreter/builtins.c"],
 [("method lookup", "interpreter/VM.c: vm_lookup_method_throwing, lookup, lookup2, obj_get_metatable"), ("mt library", "std/yasl-std-mt.c")],
 ["standard output of generated programs"])

prop("C13", "Values print exactly and numbers survive text round trips",
 "Printing or stringifying a value gives its one defined text: integers in full decimal, floats in fixed notation with at least one fractional digit, nested lists and tables element by element with self-containing ones cut off instead of looping, strings byte for byte (echo leaves NUL bytes out). Integer literals in every base and with separators, and the text-to-number conversions, denote exactly the number written, so converting an integer to text and back is the identity.",
 ["inputs"], "all int and float values, all literal spellings, all nested and cyclic collections",
 "Tests print a few numbers and flat collections; exactness over the whole 64-bit range and every spelling is not sampled.",
 ["interpreter/YASL_Object.c", "util/yasl_float.c", "interpreter/int_methods.c", "interpreter/float_methods.c", "interpreter/list_methods.c", "interpreter/table_methods.c", "compiler/lexer.c", "compiler/parser.c"],
 [("number formatting", "util/yasl_float.c, interpreter/int_methods.c, interpreter/float_methods.c"), ("collection formatting", "interpreter/list_methods.c: list_tostr_helper; interpreter/table_methods.c"), ("literal scanning", "compiler/lexer.c: lex_eatnumber; compiler/parser.c: get_int")],
 ["standard output of generated programs"])

prop("C14", "Math library functions return the mathematical result for every argument",
 "For every int or float argument, the math library's functions and constants return the value of the function they name (to double precision, keeping the int or float result type they document), including at NaN, infinities, domain edges and integer extremes, and raise a type error for every non-number. Results are never out of the declared range: random numbers and integer results stay within their documented bounds.",
 ["inputs"], "all numeric arguments and argument counts of every function in the library",
 "Tests call each function on one or two ordinary arguments.",
 ["std/yasl-std-math.c"],
 [("math functions", "std/yasl-std-math.c")],
 ["standard output of generated programs"])

prop("C15", "A run-time failure reports the right kind and line and stops there",
 "When evaluation fails, everything printed before the failing operation has been output and nothing after it runs, the diagnostic names the error kind and the source line of the failing operation followed by one call-site line per active script function, and the process exit status (or the API result) is the code of that error kind. This holds wherever the failure happens: inside nested calls, loops, closures, methods and library functions.",
 ["programs", "fault_sequences"], "all error kinds x all operations that can raise them x all program positions (line numbers, call depth, loop nesting)",
 "Tests check the kind and line of one error per small file; lines beyond small counts, deep call chains and positions inside constructs are not sampled.",
 ["interpreter/VM.c", "compiler/compiler.c", "util/varint.c", "main.c", "yasl.c"],
 [("line table", "compiler/compiler.c: visit; util/varint.c; interpreter/VM.c: vm_getcurrline"), ("unwinding report", "interpreter/VM.c: printline, vm_throw_err")],
 ["standard output, standard error and exit status"])

prop("C16", "A program that is not well-formed is rejected whole, before anything runs",
 "If a source text violates the grammar or the static rules (undeclared or redeclared names, assignment to constants, misplaced break, continue, return or export, reserved words, malformed literals, invalid patterns), the whole program is rejected with the syntax-error status and at least one diagnostic, and no part of it executes; every well-formed program is accepted. Compile-only mode gives the same verdict as running.",
 ["programs"], "all well-formed programs and all single faults injected into them at any position",
 "Tests list single-fault snippets; a fault after arbitrary valid code, in dead branches, or deep inside nested constructs is not sampled.",
 ["compiler/compiler.c", "compiler/parser.c", "compiler/lexer.c", "yasl.c", "main.c"],
 [("static checks", "compiler/compiler.c: load_var, store_var, decl_var, validate"), ("grammar", "compiler/parser.c: eattok, handle_error"), ("lexical checks", "compiler/lexer.c")],
 ["standard output, standard error and exit status"])

prop("C17", "Layout and spelling that carry no meaning change nothing",
 "Two source texts that differ only in comments, blank space and line breaks where the grammar allows them, redundant parentheses, explicit or implied statement ends, digit separators, the way a string literal is written (single-quoted, interpolated, raw, escaped) or consistent renaming of local variables produce the same output and the same exit status.",
 ["programs"], "all programs x all meaning-preserving rewrites of their text",
 "A relation between pairs of programs: no test compares two spellings of the same program.",
 ["compiler/lexer.c", "compiler/lexinput.c", "compiler/parser.c"],
 [("scanner", "compiler/lexer.c"), ("statement ends and look-ahead", "compiler/parser.c: ismultiassign, isfndecl; compiler/lexer.c: lex_eatwhitespace")],
 ["standard output and exit status of pairs of programs"])

prop("C18", "No input makes the interpreter corrupt memory or execute undefined behaviour",
 "For every byte sequence given as a program, and every program that runs, the interpreter never reads or writes memory it does not own, never uses memory after releasing it, never executes undefined behaviour and never dies from a signal: it ends with one of the defined status codes. This includes malformed, truncated and mutated sources and programs that misuse every built-in operation.",
 ["inputs", "programs"], "all byte strings as source; all programs calling all built-ins with arguments of any type",
 "Tests run well-behaved inputs without memory instrumentation (the valgrind pass accepts any error below a signal).",
 ["compiler/lexer.c", "compiler/parser.c", "compiler/ast.c", "compiler/compiler.c", "interpreter/VM.c", "data-structures/YASL_String.c", "data-structures/YASL_Table.c", "std/yasl-std-io.c"],
 [("error recovery while parsing", "compiler/parser.c: handle_error, eattok"), ("stack and frame bounds", "interpreter/VM.c: vm_push, vm_enterframe_offset")],
 ["sanitizer reports and exit status"])

prop("C19", "Exhausted interpreter limits end in a reported error, not in damage",
 "When a program needs more value stack, call depth, nested loops or variables than the interpreter supports, it stops with the stack-overflow error (or, for limits known while compiling, is rejected) with its diagnostic and status, everything printed before that point is intact, and the host process can go on using the library; a program that stays within the limits is never stopped.",
 ["programs", "configurations"], "all ways of approaching and crossing each limit: recursion through every call form, loops, literals, arguments, spread results, locals",
 "Tests overflow by plain recursion only; the other limits and the step just below each limit are not exercised.",
 ["interpreter/VM.c", "yasl_conf.h", "compiler/compiler.c"],
 [("bounds checks", "interpreter/VM.c: vm_push, vm_insert, vm_enterframe_offset, O_INITFOR"), ("compile-time limits", "compiler/compiler.c: decl_var")],
 ["standard output, exit status and sanitizer reports"])

prop("C20", "Everything allocated is released exactly once",
 "A value is destroyed exactly once and only when nothing can reach it any more; host data's destructor runs exactly once; and when an interpreter state is deleted, every byte allocated for it since its creation has been released, however execution ended (normally, by run-time error or by compile error), unless the program built a reference cycle.",
 ["programs", "histories", "fault_sequences"], "all cycle-free programs and API histories, all ways of ending them",
 "Tests do not look at the heap after a run; the leak pass only reports crashes.",
 ["interpreter/refcount.c", "interpreter/VM.c", "interpreter/userdata.c", "data-structures/YASL_Table.c", "data-structures/YASL_List.c", "yasl.c"],
 [("reference counts", "interpreter/refcount.c"), ("stack slot ownership", "interpreter/VM.c: vm_push, vm_pop, vm_rm, vm_rm_range"), ("teardown", "interpreter/VM.c: vm_cleanup; yasl.c: YASL_delstate")],
 ["allocation balance at state deletion; destructor call counts"])

prop("C21", "The embedding stack behaves as a typed last-in first-out stack",
 "Through the embedding interface, pushed values come back in last-in first-out order with their exact type and content, type predicates and type names agree with what was pushed, peeking never changes the stack, popping removes exactly one value, and table and list accessors read and write exactly the addressed entry. Reading a value as the wrong type returns the documented neutral value and has no other effect.",
 ["histories"], "all sequences of interface calls allowed by the header's contract",
 "Unit tests make a handful of fixed calls.",
 ["yasl.c", "yasl.h", "yasl_aux.c"],
 [("interface functions", "yasl.c: YASL_push*, YASL_peek*, YASL_pop*, YASL_is*, YASL_table*, YASL_list*")],
 ["return values of interface calls in a harness program"])

prop("C22", "Host functions exchange arguments, results and errors with scripts exactly",
 "A host function registered with a given number of parameters receives exactly that many arguments in order (undef for missing ones, extras dropped; a variadic one receives all and their count), the values it returns are what the calling expression sees, an error it raises ends the script with that error kind and the call's line, and a host calling a script or host function gets all its results. Globals shared between host and script always read back what either side last stored.",
 ["programs", "histories"], "all arities, argument and result counts, call positions, and error points",
 "Unit tests register one or two functions with matching arguments.",
 ["yasl.c", "yasl_aux.c", "interpreter/VM.c"],
 [("host call sequence", "interpreter/VM.c: vm_CALL_cfn, vm_insert, vm_exitframe_multi"), ("host interface", "yasl.c: YASL_functioncall, YASL_setglobal, YASL_loadglobal, YASL_throw_err")],
 ["recorded calls in a harness program; script output"])

prop("C23", "Interpreter states do not affect one another, also across threads",
 "Creating, running, failing or deleting one interpreter state never changes what any other state computes or prints, for every interleaving of operations on several states in one thread, and states used by different threads at the same time behave as if each were alone, without data races.",
 ["schedules", "histories"], "all interleavings of operations on several states, in one thread or in several",
 "Tests run one state per process at a time; no test uses threads or two live states.",
 ["yasl.c", "interpreter/VM.c", "data-structures", "std"],
 [("per-state data only", "yasl_state.h; interpreter/VM.h")],
 ["per-state output compared with running alone; race reports"])

prop("C24", "A state can be reused after success and after failure",
 "After a program has finished, failed at run time or failed to compile, the same state can be given further source, which runs exactly as specified: globals declared earlier keep their last values, functions and values created by earlier source stay usable, the stack left by an abandoned run does not leak into the next, and line numbers and diagnostics refer to the new source. Feeding a program to the interactive mode in pieces has the same effect as running the pieces as one program.",
 ["histories", "programs"], "all sequences of good and bad source pieces on one state",
 "Unit tests reuse a state once or twice with trivial code.",
 ["yasl.c", "main.c", "compiler/compiler.c", "interpreter/VM.c"],
 [("state reset", "yasl.c: YASL_resetstate_bb, YASL_resetstate"), ("interactive compile and run", "yasl.c: YASL_execute_REPL; compiler/compiler.c: compile_REPL")],
 ["output and result codes in a harness program"])

prop("C25", "Redirected output captures exactly what would have been printed",
 "When a state's output or error stream is redirected to memory, the captured text is exactly the bytes the same program would have written to the standard stream, in order and complete for any amount of output, each stream separately, and capture starts and stops exactly where the host asks.",
 ["programs", "histories"], "all programs and output volumes, all points of switching and loading the capture",
 "Unit tests capture a line or two.",
 ["util/IO.c", "yasl.c"],
 [("memory sink", "util/IO.c"), ("capture interface", "yasl.c: YASL_setprintout_tostr, YASL_loadprintout and the error counterparts")],
 ["captured text compared with the standard streams"])

prop("C26", "A required module yields exactly its exports and stays separate",
 "Requiring a module runs it once per require in its own scope and yields exactly the value it exports; its functions keep working on the module's own variables after loading, names of the module and of the requiring program never mix, and a module that is missing, does not compile or fails makes the requiring program fail with the documented error kind instead of continuing. The module search path is tried in order.",
 ["programs", "configurations"], "all module graphs, exported values, search paths and failing modules",
 "Tests require a couple of fixed modules.",
 ["std/yasl-std-require.c", "interpreter/VM.c", "yasl.c"],
 [("module loading", "std/yasl-std-require.c"), ("export", "interpreter/VM.c: O_EXPORT; compiler/compiler.c: visit_Export")],
 ["standard output and exit status in a scratch directory"])

prop("C27", "Files read back exactly what was written, in every mode",
 "Through the io library, a file opened in a given mode contains after closing exactly the bytes the mode and the sequence of writes imply, reads return exactly the bytes on file from the current position (whole, by line or by count), end of file and failures are reported as documented, and any byte value and any size survives. Misuse (bad modes, operations on closed or wrongly opened files) is reported, not executed.",
 ["histories", "inputs", "fault_sequences"], "all sequences of open, read, write, seek, flush and close in all modes, all contents, failing devices",
 "Tests touch at most a fixed small file.",
 ["std/yasl-std-io.c"],
 [("file methods", "std/yasl-std-io.c")],
 ["file contents and standard output in a scratch directory"])

prop("C28", "The command line runs the given source and reports its outcome",
 "Each way of giving source on the command line (file, inline expression, inline program, compile-only) executes that source exactly once (or, for compile-only, not at all) with the script's arguments available in order and unchanged, prints the result of a final expression only where documented, and exits with the status code of the outcome; unreadable files and unknown or incomplete options give a diagnostic and a failure status.",
 ["configurations", "inputs"], "all option forms, argument vectors and program outcomes",
 "The CLI tests run plain files without arguments.",
 ["main.c", "yasl.c"],
 [("option handling", "main.c"), ("status mapping", "main.c; yasl_error.h")],
 ["standard output, standard error and exit status of the command"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
